"""The spglib_data argument changes nothing but the cost, and foreign or stale data are refused.

For every function with this argument: the graph without it (data created from
the given cell and atoms with default tolerances) equals the graph with it;
objects of other classes raise TypeError; a mismatch of cell, positions or types
raises ValueError, decided on the extracted guards.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr, satoms, spglib_data
from ..interp import Ref, State, Tup
from ..terms import const, mk
from .common import bind, crystal_env, ctypes_of, params_snap

LEVEL = "proof"
FLOOR = 40

FNS = ["wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive", "wulfric.crystal.hpkot_get_extended_bl_symbol",
       "wulfric.crystal.sc_get_variation", "wulfric.kpoints.get_path_and_points", "wulfric.Kpoints.from_crystal"]
CASES = [("o", "P", 16), ("a", "P", 1), ("m", "C", 5), ("h", "R", 146), ("c", "F", 196)]
OT = [2, 1, 2, 1]


def gate_interp(ctx):
    new = "gate" not in ctx._it
    it = ctx.interp("gate")
    if new:
        it.created = []
        init = it.public("wulfric.SpglibData").lookup("__init__")

        def make(it_, st, args, kwargs):
            b = bind(init, [None] + list(args), kwargs)
            it_.created.append((st.pc, b, it_.loc, dict(st.heap)))
            c, a = it_.to_array_T(st, b["cell"]), b["atoms"]
            ok = c is it_.want_cell and isinstance(a, Ref) and a.addr == it_.want_atoms and b["spglib_symprec"] == 1e-5 and b["spglib_angle_tolerance"] == -1
            return fresh(it_, st, it_.case, "sd" if ok else "other")
        it.stub_public("wulfric.SpglibData", make)
        it.stub_public("wulfric.cell.get_niggli", lambda i, s, a, k: i.new_array(s, mk("stub", "niggli", i.as_T(s, bind(it.public("wulfric.cell.get_niggli"), a, k)["cell"]))))
        it.stub_public("wulfric.cell.get_params", lambda i, s, a, k: Tup(
            [mk("stub", "params[]", i.to_array_T(s, bind(it.public("wulfric.cell.get_params"), a, k)["cell"]), const(j)) for j in range(6)]))
    return it


def fresh(it, st, case, name, otypes=None):
    fam, cen, n = case
    return spglib_data(it, st, n, fam, cen, otypes or OT, ctypes_of(cen), [2, 1], name=name)


def setup(it, case):
    st = State()
    it.case = case
    cell = sarr(it, st, "cell", (3, 3))
    atoms = satoms(it, st, 4, ("mykey",), spglib_types=OT)
    it.want_cell, it.want_atoms = it.to_array_T(st, cell), atoms.addr
    del it.created[:]
    return st, cell, atoms


def check(ctx):
    it = gate_interp(ctx)
    for fn in FNS:
        for conv in ("HPKOT", "SC", "spglib"):
            if conv == "spglib" and fn not in FNS[:2] or "get_extended" in fn and conv == "SC" or "variation" in fn and conv == "HPKOT":
                continue
            for case in CASES:
                ctx.ob(f"{fn.split('.')[-1]} {conv} {case[0]}{case[1]}: default equals explicit data", default, ctx, it, fn, conv, case)
                if fn in FNS[4:]:
                    for extra in (dict(with_time_reversal=False), dict(relative=False) if fn == FNS[4] else dict(n=7, with_time_reversal=True)):
                        ctx.ob(f"{fn.split('.')[-1]} {conv} {case[0]}{case[1]} {extra}: default equals explicit data", default, ctx, it, fn, conv, case, extra)
                ctx.ob(f"{fn.split('.')[-1]} {conv} {case[0]}{case[1]}: stale data are refused", stale, ctx, it, fn, conv, case)
            ctx.ob(f"{fn.split('.')[-1]} {conv}: foreign objects are refused", foreign, ctx, it, fn, conv)
    ctx.ob("validate_spglib_data", validate, ctx, it)
    for n in (1, 12, 30):
        ctx.ob(f"validate_spglib_data, {n} atoms", many, ctx, it, n)


def kwargs(fn, conv):
    return {} if fn in FNS[2:4] else dict(convention=conv)


def loc_of(it, fn):
    return fun_loc(it.public(fn))


def default(ctx, it, fn, conv, case, extra=None):
    from .c02_same_atoms import patterned
    n = 2 if (conv, case[1]) == ("SC", "R") else len(ctypes_of(case[1]))
    patterned(it, [i % 2 for i in range(n)])
    try:
        default_(ctx, it, fn, conv, case, extra or {})
    finally:
        it.ext_stubs.pop("numpy.isclose", None)


def default_(ctx, it, fn, conv, case, extra):
    name = fn.split(".")[-1]
    st, cell, atoms = setup(it, case)
    a = it.run(fn, [cell, atoms], dict(kwargs(fn, conv), **extra), st=st)
    st2, cell2, atoms2 = setup(it, case)
    b = it.run(fn, [cell2, atoms2], dict(kwargs(fn, conv), **extra, spglib_data=fresh(it, st2, case, "sd")), st=st2)
    st3, cell3, atoms3 = setup(it, case)
    c = it.run(fn, [cell3, atoms3], dict(kwargs(fn, conv), **extra, spglib_data=fresh(it, st3, case, "given")), st=st3)
    # data created although they were given are harmless only if nothing depends on them
    created = it.created[0][2] if it.created else None
    tc = c.T()
    g = oracle.rng(ctx.seed, fn, conv, case)
    ta, tb = a.T(), b.T()
    for _ in range(6):
        env = crystal_env(g, case[0], case[1])
        env["atoms.positions"] = env["sd.original_positions"]
        for k in list(env):
            if isinstance(k, str) and k.startswith("sd."):
                env["given." + k[3:]] = env[k]
                env["other." + k[3:]] = oracle.random_cell(g) if k.endswith("_cell") else env[k] * 1.37
        ma, mb = {}, {}
        xa, xb = rint.raised(a, env, ma), rint.raised(b, env, mb)
        if xa is not None or xb is not None:
            if (xa is None) != (xb is None):
                x = xa or xb
                raise Violation(f"{name} ({conv}) {'without' if xa else 'with'} spglib_data raises {rint.cls_name(x.cls)}, the other call does not", x.loc, f"{name} {conv} default raises")
            continue
        try:
            va, vb = tm.evaluate(ta, env, ma), tm.evaluate(tb, env, mb)
        except tm.Unevaluable as e:
            raise Undecided(str(e))
        ctx.count("points")
        env2 = {**env, **{k: env["other." + k[3:]] for k in env if isinstance(k, str) and k.startswith("sd.")}}
        mc = {}
        xc = rint.raised(c, env2, mc)
        try:
            vc = None if xc else tm.evaluate(tc, env2, mc)
        except tm.Unevaluable as e:
            raise Undecided(str(e))
        if xc or not rint.same(strip(vb), strip(vc)):
            raise Violation(f"the result of {name} ({conv}) depends on newly created data although spglib_data were given", created or loc_of(it, fn), f"{name} {conv} ignores given data")
        if not rint.same(strip(va), strip(vb)):
            loc = it.created[0][2] if it.created else (a.exits[-1].loc if a.exits else loc_of(it, fn))
            raise Violation(f"{name} ({conv}) gives different results with spglib_data=None and with the data of the same crystal with default tolerances", loc, f"{name} {conv} default differs")


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [strip(x) for x in v]
    return v


def at(i, j, d):
    def f(g, c):
        c[i, j] += d
        return c
    return f


CHANGES = dict(
    cell=[at(i, j, d) for i in range(3) for j in range(3) for d in (0.05, -1e-3)] + [
        lambda g, c: c @ oracle.random_rotation(g), lambda g, c: -c, lambda g, c: c[[1, 0, 2]], lambda g, c: c[[2, 0, 1]], lambda g, c: c * 1.001,
        lambda g, c: c @ np.diag([1, 1, -1]), lambda g, c: c * 2, lambda g, c: np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]) @ c, lambda g, c: oracle.random_cell(g),
        lambda g, c: np.array([[1, 0, 0], [0, 1, 0], [0, -1, 1]]) @ c],
    positions=[at(i, j, d) for i in range(4) for j in range(3) for d in (0.05, -1e-3)] + [
        lambda g, p: p[[1, 0, 2, 3]], lambda g, p: p[[0, 1, 3, 2]], lambda g, p: p[::-1], lambda g, p: -p, lambda g, p: p + 0.1, lambda g, p: p[:, [1, 0, 2]],
        lambda g, p: p * 1.01, at(0, 0, 1), at(2, 1, -1), lambda g, p: p + 1, lambda g, p: g.uniform(0, 1, size=p.shape)],
    types=[None])


def stale(ctx, it, fn, conv, case):
    name = fn.split(".")[-1]
    g = oracle.rng(ctx.seed, fn, conv, case, "stale")
    for what, ot in (("cell", OT), ("positions", OT), ("types", [1, 2, 1, 2])):
        st, cell, atoms = setup(it, case)
        r = it.run(fn, [cell, atoms], dict(kwargs(fn, conv), spglib_data=fresh(it, st, case, "sd", otypes=ot)), st=st)
        for change in CHANGES[what]:
            env = crystal_env(g, case[0], case[1])
            key = dict(cell="cell", positions="atoms.positions").get(what)
            if key:
                env[key] = change(g, np.array(env[key], dtype=float))
            x = rint.raised(r, env, strict=False)
            ctx.count("points")
            if x is None:
                for y in r.raises:
                    rint.guard(y.pc, env)  # undecided unless every guard is closed-form
                raise Violation(f"{name} ({conv}) accepts spglib_data created for other {what}", r.exits[-1].loc if r.exits else loc_of(it, fn), f"{name} {conv} stale {what}")
            if rint.cls_name(x.cls) != "ValueError":
                raise Violation(f"{name} ({conv}) raises {rint.cls_name(x.cls)}, not ValueError, on spglib_data created for other {what}", x.loc, f"{name} {conv} stale {what} class")


def many(ctx, it, n):
    """Every coordinate and type of a crystal of many atoms matters, that of the last atom as well."""
    case = CASES[0]
    g = oracle.rng(ctx.seed, "many", n)
    types = [1 + i % 2 for i in range(n)]
    for k, ot in [(None, types)] + [(k, types[:k] + [3] + types[k + 1:]) for k in (n - 1, n // 2)]:
        st = State()
        it.case = case
        atoms = satoms(it, st, n, ("mykey",), spglib_types=types)
        cell = sarr(it, st, "cell", (3, 3))
        r = it.run("wulfric.validate_spglib_data", [cell, atoms, fresh(it, st, case, "sd", otypes=ot)], {}, st=st)
        env = crystal_env(g, *case[:2], n=n)
        x = rint.raised(r, env, strict=True)
        if (x is None) != (k is None):
            raise Violation(f"{n} atoms, of which {'none' if k is None else 'one'} has another type, are {'accepted' if x is None else 'refused'}", x.loc if x else loc_of(it, "wulfric.validate_spglib_data"), "validate many")
        for i in range(n) if k is None else ():
            p = np.array(env["atoms.positions"])
            p[i, i % 3] += 0.01
            ctx.count("points")
            if rint.raised(r, dict(env, **{"atoms.positions": p}), strict=True) is None:
                raise Violation(f"another position of atom {i} of {n} is accepted", loc_of(it, "wulfric.validate_spglib_data"), "validate many")


def foreign(ctx, it, fn, conv):
    name = fn.split(".")[-1]
    for label, build in (("a dictionary", lambda st: it.new_dict(st, [("space_group_number", 1)])), ("a string", lambda st: "data"), ("an integer", lambda st: 5),
                         ("False", lambda st: False), ("an empty dictionary", lambda st: it.new_dict(st, []))):
        st, cell, atoms = setup(it, CASES[0])
        r = it.run(fn, [cell, atoms], dict(kwargs(fn, conv), spglib_data=build(st)), st=st)
        if rint.possible(st.pc):
            raise Violation(f"{name} ({conv}) accepts {label} as spglib_data", r.exits[-1].loc if r.exits else loc_of(it, fn), f"{name} {conv} accepts foreign")
        for x in rint.sure(r):
            if rint.cls_name(x.cls) != "TypeError":
                raise Violation(f"{name} ({conv}) raises {rint.cls_name(x.cls)}, not TypeError, for {label}", x.loc, f"{name} {conv} foreign class")


def validate(ctx, it):
    case = CASES[0]
    g = oracle.rng(ctx.seed, "validate")
    for ot in (OT, [1, 2, 1, 2], [2, 1, 2, 2], [2, 2, 1, 1], [2, 1, 1, 2], [3, 1, 3, 1], [1, 1, 1, 1]):
        st, cell, atoms = setup(it, case)
        r = it.run("wulfric.validate_spglib_data", [cell, atoms, fresh(it, st, case, "sd", otypes=ot)], {}, st=st)
        env = crystal_env(g, *case[:2])
        x = rint.raised(r, env, strict=True)
        ctx.count("points")
        if (x is None) != (ot == OT):
            raise Violation(f"types {OT} of the atoms and {ot} of the data are {'accepted' if x is None else 'refused'}", x.loc if x else loc_of(it, "wulfric.validate_spglib_data"), "validate types")
        if ot == OT and r.st.pc == 0:
            raise Violation("valid data are refused", r.raises[-1].loc, "validate refuses")
