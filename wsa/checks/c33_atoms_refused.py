"""Invalid dictionaries of atoms are refused, valid ones accepted, by validate_atoms and by the functions of crystals.

Dictionaries with one or two defects (every kind of defect at every atom and
every key, types and positions symbolic where the verdict depends on them) are
propagated through the analysed functions; every way out is enumerated.
"""
from .. import rint
from .. import terms as tm
from ..core import Violation, fun_loc
from ..inputs import sarr, spglib_data
from ..interp import State, Tup
from .c17_species import EL
from .calls import nums
from .common import ctypes_of

LEVEL = "other"
FLOOR = 150
FN = "wulfric.crystal.validate_atoms"
ASSUMPTIONS = ["values of keys are lists, tuples, arrays or scalars; subclasses with special behaviour are not covered"]
N = 3


class Raw:
    """Builds a value in the abstract heap."""

    def __init__(self, f):
        self.f = f


def lst(items, kind="list"):
    def b(it, st):
        v = [x.f(it, st) if isinstance(x, Raw) else x for x in items]
        return Tup(v) if kind == "tuple" else it.new_list(st, v, "input:value")
    return Raw(b)


def pos(n=N, form="array", m=3):
    if form == "array":
        return Raw(lambda it, st: sarr(it, st, "atoms.positions", (n, m)))
    if form == "list":
        return Raw(lambda it, st: nums(it, st, "atoms.positions", (n, m)))
    if form == "tuples":
        return lst([Raw(lambda it, st, i=i: Tup([tm.sym(f"p[{i}][{j}]", "float") for j in range(m)])) for i in range(n)], "tuple")
    if form == "flat":
        return Raw(lambda it, st: sarr(it, st, "atoms.positions", (n,)))
    if form == "deep":
        return Raw(lambda it, st: sarr(it, st, "atoms.positions", (n, 3, 1)))
    # ragged
    return lst([Raw(lambda it, st, i=i: nums(it, st, f"p{i}", (3 if i != form else 2,))) for i in range(n)])


def base(n=N, form="array", keys=("names", "species", "spglib_types", "mykey")):
    d = dict(positions=pos(n, form))
    if "names" in keys:
        d["names"] = lst([f"Cr{i}" for i in range(n)])
    if "species" in keys:
        d["species"] = lst((["Cr", "X", "Br"] * n)[:n])
    if "spglib_types" in keys:
        d["spglib_types"] = lst(([2, 1, 2] * n)[:n])
    if "mykey" in keys:
        d["mykey"] = lst(([None, 2.5, "s"] * n)[:n])
    return d


def make(it, st, d):
    return it.new_dict(st, [(k, v.f(it, st) if isinstance(v, Raw) else v) for k, v in d.items()], "input:atoms")


def defects():
    """(label, changes, required keys, classes of errors)."""
    VE, TE = ("ValueError",), ("TypeError",)
    for k in ("names", "species", "spglib_types", "positions", "mykey"):
        for v in (42, None, 0.5):
            yield f"{k} is {v}", {k: v}, None, TE
    for k, one, more in (("names", ["Cr", "Br"], ["Cr", "Br", "I", "I2"]), ("species", ["Cr", "Br"], ["Cr", "Br", "I", "I"]), ("spglib_types", [1, 2], [1, 2, 2, 1]), ("mykey", [1, 2], [1, 2, 3, 4])):
        yield f"{k} is too short", {k: lst(one)}, None, VE
        yield f"{k} is too long", {k: lst(more)}, None, VE
        yield f"{k} is empty", {k: lst([])}, None, VE
    yield "positions are too short", dict(positions=pos(2)), None, VE
    yield "positions are too long", dict(positions=pos(4, "list")), None, VE
    for m in (1, 2, 4):
        for f in ("array", "list"):
            yield f"positions have {m} components ({f})", dict(positions=pos(N, f, m)), None, VE
    yield "positions are flat", dict(positions=pos(N, "flat")), None, VE
    yield "positions are deep", dict(positions=pos(N, "deep")), None, VE
    for i in range(N):
        yield f"position {i} has two components", dict(positions=pos(N, i)), None, VE
        for bad in (42, None, 1.5):
            yield f"name {i} is {bad}", dict(names=lst([bad if j == i else "Cr" for j in range(N)])), None, VE
        for what, bad in (("a list", lst(["C", "r"])), ("a tuple", lst(["Cr"], "tuple")), ("an empty list", lst([])), ("a dictionary", Raw(lambda it, st: it.new_dict(st, [("Cr", 1)], "input:name"))), ("True", True)):
            yield f"name {i} is {what}", dict(names=lst([bad if j == i else "Cr" for j in range(N)])), None, VE
        for bad in (42, None, "Fe1", "fe", "FE", "", "Xx", " Fe", "x", "Q", "iron", "HF"):
            yield f"species {i} is {bad!r}", dict(species=lst([bad if j == i else "Fe" for j in range(N)])), None, VE
        for bad in (1.0, "1", None, 0, -1, -7):
            yield f"type {i} is {bad!r}", dict(spglib_types=lst([bad if j == i else 1 for j in range(N)])), None, VE
    for k in ("positions", "names", "species", "spglib_types", "mykey"):
        for rk in ([k], ["positions", "names", k], [k, "positions"]):
            yield f"{k} is missing, required {rk}", {k: Ellipsis}, rk, VE
    # two defects: the errors of both are acceptable
    yield "two defects: name and species", dict(names=lst(["a", 1, "b"]), species=lst(["Fe", "Fe", "fe"])), None, VE
    yield "two defects: scalar and length", dict(names=5, species=lst(["Fe"])), None, VE + TE
    yield "two defects: positions and types", dict(positions=pos(N, "array", 2), spglib_types=lst([1, 0, 1])), ["names"], VE


def alter(changes, **kw):
    d = base(**kw)
    for k, v in changes.items():
        if v is Ellipsis:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def check(ctx):
    it = ctx.interp("plain")
    for label, changes, rk, classes in defects():
        for more in ([None] if rk is not None else [None, [], ["positions"], ["names", "positions"], ["mykey"]]):
            if more and any(changes.get(k) is Ellipsis for k in more):
                continue
            ctx.ob(label + (f", required {more}" if more is not None else ""), bad, ctx, it, changes, rk if more is None else more, classes)
    for form in ("array", "list", "tuples"):
        for n in (1, 2, 4):
            for keys in ((), ("names",), ("species",), ("spglib_types",), ("names", "species", "spglib_types", "mykey")):
                ctx.ob(f"valid atoms ({form}, {n}, {keys})", good, ctx, it, base(n, form, keys), None)
                ctx.ob(f"valid atoms ({form}, {n}, {keys}), required", good, ctx, it, base(n, form, keys), ["positions"] + list(keys))
    for form in ("array", "list"):
        ctx.ob(f"twelve valid atoms ({form})", good, ctx, it, base(12, form), None)
    for i in (4, 8, 9, 11):
        for k, v, ok in (("names", 42, "Cr"), ("species", "Fe1", "Fe"), ("spglib_types", 0, 1), ("spglib_types", 1.5, 1)):
            ctx.ob(f"twelve atoms, {k} {i} is {v!r}", bad, ctx, it, {k: lst([v if j == i else ok for j in range(12)])}, None, ("ValueError",), 12)
        ctx.ob(f"twelve atoms, position {i} has two components", bad, ctx, it, dict(positions=pos(12, i)), None, ("ValueError",), 12)
    ctx.ob("empty dictionary", good, ctx, it, {}, None)
    ctx.ob("names only", good, ctx, it, dict(names=lst(["a", "b"])), ["names"])
    ctx.ob("tuples as values", good, ctx, it, dict(names=lst(["a", "b"], "tuple"), species=lst(["H", "X"], "tuple"), spglib_types=lst([3, 1], "tuple"), positions=pos(2)), None)
    for k in range(0, len(EL), 8):
        ctx.ob(f"species {EL[k]}...", good, ctx, it, dict(species=lst(EL[k:k + 8])), ["species"])
    for i in range(N):
        ctx.ob(f"any integer as type {i}", types, ctx, it, i)
    for fn in ("wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive", "wulfric.kpoints.get_path_and_points", "wulfric.crystal.sc_get_variation",
               "wulfric.crystal.hpkot_get_extended_bl_symbol", "wulfric.Kpoints.from_crystal", "wulfric.get_spglib_data"):
        for label, changes, rk, classes in users():
            for with_data in (True, False) if fn != "wulfric.get_spglib_data" else (False,):
                ctx.ob(f"{fn.split('.')[-1]}: {label}, dataset {with_data}", user, ctx, it, fn, changes, with_data)
    for fn in ("wulfric.get_spglib_types", "wulfric.crystal.get_atoms_species", "wulfric.crystal.get_unique_names"):
        for label, changes, rk, classes in defects():
            if rk is not None or label.startswith("position") or "mykey" in label:
                continue
            ctx.ob(f"{fn.split('.')[-1]}: {label}", user, ctx, it, fn, changes, None)
    ctx.ob("get_spglib_types: nothing to distinguish atoms", user, ctx, it, "wulfric.get_spglib_types", dict(names=Ellipsis, species=Ellipsis, spglib_types=Ellipsis), None)
    for fn in ("get_atoms_species", "get_unique_names"):
        ctx.ob(f"{fn}: no names", user, ctx, it, "wulfric.crystal." + fn, dict(names=Ellipsis), None)


def users():
    for x in defects():
        if x[2] is None and "is 0.5" not in x[0]:
            yield x
    yield "no positions", dict(positions=Ellipsis), None, ("ValueError",)


def both(it, d, rk):
    for mode in (True, False):
        st = State()
        kw = {} if mode else dict(raise_errors=False)
        if rk is not None:
            kw["required_keys"] = it.new_list(st, list(rk), "input:required_keys")
        yield mode, it.run(FN, [make(it, st, d)], kw, st=st)


def bad(ctx, it, changes, rk, classes, n=N):
    loc = fun_loc(it.public(FN))
    for mode, r in both(it, alter(changes, n=n), rk):
        if mode:
            if rint.returned(r):
                raise Violation("invalid atoms are accepted", r.exits[-1].loc if r.exits else loc, "accepted")
            for x in rint.sure(r):
                if rint.cls_name(x.cls) not in classes:
                    raise Violation(f"{rint.cls_name(x.cls)} instead of {' or '.join(classes)}", x.loc, "class")
        else:
            for x in rint.sure(r):
                raise Violation(f"{rint.cls_name(x.cls)} with raise_errors=False", x.loc, "raises")
            v = rint.val(r, r.value, {})
            if v is not False:
                raise Violation(f"{v!r} instead of False for invalid atoms", r.exits[-1].loc if r.exits else loc, "not False")


def good(ctx, it, d, rk):
    loc = fun_loc(it.public(FN))
    for mode, r in both(it, d, rk):
        for x in rint.sure(r):
            raise Violation(f"{rint.cls_name(x.cls)} for valid atoms", x.loc, "refused")
        v = rint.val(r, r.value, {})
        if v is not True:
            raise Violation(f"{v!r} instead of True for valid atoms", r.exits[-1].loc if r.exits else loc, "not True")


def types(ctx, it, i):
    loc = fun_loc(it.public(FN))
    d = dict(spglib_types=lst([tm.sym("t", "int") if j == i else 1 for j in range(N)]))
    for mode, r in both(it, d, None):
        for t in (-12, -1, 0, 1, 2, 3, 118, 5000):
            e = dict(t=t)
            x = rint.raised(r, e, strict=True)
            if mode:
                if (x is not None) != (t < 1):
                    raise Violation(f"type {t} of atom {i} is {'refused' if x else 'accepted'}", x.loc if x else loc, "border of types")
                if x is not None and rint.cls_name(x.cls) != "ValueError":
                    raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError", x.loc, "class of types")
            else:
                if x is not None:
                    raise Violation(f"{rint.cls_name(x.cls)} with raise_errors=False", x.loc, "raises types")
                v = rint.val(r, r.value, e)
                if bool(v) is not (t >= 1):
                    raise Violation(f"{v!r} for the type {t} of atom {i}", loc, "verdict of types")


def user(ctx, it, fn, changes, with_data):
    f = it.public(fn)
    it.assume_available = True
    it.ext_stubs["spglib.get_symmetry_dataset"] = lambda i, st, a, k: None
    st = State()
    at = make(it, st, alter(changes))
    cell = sarr(it, st, "cell", (3, 3))
    kw = {}
    args = [at] if with_data is None else [cell, at]
    if with_data:
        kw["spglib_data"] = spglib_data(it, st, 16, "o", "P", [2, 1, 2], ctypes_of("P"), [2, 1])
    r = it.run(fn, args, kw, st=st)
    if rint.returned(r):
        raise Violation(f"{fn.split('.')[-1]} accepts invalid atoms", r.exits[-1].loc if r.exits else fun_loc(f), f"{fn} accepts")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) not in ("ValueError", "TypeError"):
            raise Violation(f"{rint.cls_name(x.cls)} for invalid atoms", x.loc, f"{fn} class")
