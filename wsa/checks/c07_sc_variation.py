"""The lattice variation of the SC convention is the published one, undefined cases are refused.

The decision structure is extracted per lattice type (conventional and primitive
SC cell inlined, helpers inlined, get_params summarised) and read off on
representatives of every region and every boundary of the published rules, on
both sides of the tolerances of the data set and for different tolerances.
"""
import numpy as np

from .. import oracle, oracle_k, rint
from ..core import Undecided, Violation
from .common import crystal_env, crystal_interp, run_crystal

LEVEL = "other"
FLOOR = 30
FN = "wulfric.crystal.sc_get_variation"


def check(ctx):
    it = crystal_interp(ctx)
    for fam, cen in oracle.LATTICE_TYPES:
        for n in (oracle.REPRESENTATIVE[(fam, cen)] if ctx.thorough else oracle.REPRESENTATIVE[(fam, cen)][::4] + oracle.REPRESENTATIVE[(fam, cen)][-1:]):
            for symprec, at in ((1e-5, -1), (1e-3, -1), (1e-5, 0.5), (1e-5, 4e-3)):
                if fam + cen in ("tI", "oF", "hR", "mC", "aP") or symprec == 1e-5 and at == -1:
                    ctx.ob(f"{fam}{cen} space group {n} symprec {symprec} angle {at}", one, ctx, it, fam, cen, n, symprec, at)


def one(ctx, it, fam, cen, number, symprec, at):
    from . import common
    r, sd = run(it, FN, fam, cen, number, at)
    g = oracle.rng(ctx.seed, number, symprec, at, "var")
    cells = oracle_k.region_cells(g, fam, cen, 12 if not ctx.thorough else 80)
    rc, _ = run(it, "wulfric.crystal.get_conventional", fam, cen, number, at, "SC")
    rp, _ = run(it, "wulfric.crystal.get_primitive", fam, cen, number, at, "SC")
    ang = 1e-4 if at == -1 else at
    lt = fam + cen
    for c in cells:
        env = crystal_env(g, fam, cen, c, symprec=symprec)
        memo = {}
        conv = np.asarray(rint.val(rc, rc.value.items[0], env), dtype=float)
        prim = np.asarray(rint.val(rp, rp.value.items[0], env), dtype=float)
        want = oracle_k.sc_variations(lt, conv, prim, symprec, ang)
        if want is None:
            continue
        ctx.count("points")
        x = rint.raised(r, env, memo, strict=True)
        pr = f"parameters of the conventional cell {np.round(oracle.params(conv), 6)}, symprec {symprec}, angle tolerance {ang}"
        if want == "error":
            if x is None:
                raise Violation(f"{rint.val(r, r.value, env, memo)} is returned where the convention defines no variation of {lt}; {pr}", rint.exit_at(r, env, memo), f"{lt} not refused")
            if rint.cls_name(x.cls) != "ValueError":
                raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError; {pr}", x.loc, f"{lt} error class")
            continue
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised instead of {want}; {pr}", x.loc, f"{lt} {want} raises")
        got = rint.val(r, r.value, env, memo)
        if got != want:
            raise Violation(f"{got} is returned instead of {want}; {pr}", rint.exit_at(r, env, memo), f"{lt} {got} {want}")


def run(it, fn, fam, cen, number, at, conv=None):
    from ..inputs import sarr, satoms, spglib_data
    from ..interp import State
    from .common import OTYPES, PTYPES, ctypes_of
    st = State()
    cell = sarr(it, st, "cell", (3, 3))
    atoms = satoms(it, st, 4, ())
    sd = spglib_data(it, st, number, fam, cen, OTYPES, ctypes_of(cen), PTYPES, angle_tolerance=at)
    kw = dict(spglib_data=sd)
    if conv:
        kw["convention"] = conv
    return it.run(fn, [cell, atoms], kw, st=st), sd
