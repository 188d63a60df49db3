"""Primitive cell = published centring matrix of the convention applied to the conventional cell of the same convention.

The matrices of the tables and the value graph of get_primitive are extracted
and compared with the matrices of the papers (written down independently in
this file); the determinant must be one over the number of lattice points.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from ..interp import State, Ref
from .. import terms as tm
from .common import Tup, crystal_env, crystal_interp, run_crystal, variants

LEVEL = "proof"
FLOOR = 60
I3 = np.eye(3)
F = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
I = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
SC = {k: I3 for k in ("cP", "tP", "oP", "hP", "hR", "mP", "aP")}
SC.update(cF=F, oF=F, cI=I, tI=I, oI=I)
# rows: primitive vectors in units of conventional ones
SC["oC"] = SC["oA"] = np.array([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]])
SC["mC"] = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
HPKOT = {k: I3 for k in ("cP", "tP", "oP", "hP", "mP", "aP")}
HPKOT.update(cF=F, oF=F, cI=I, tI=I, oI=I)
HPKOT["oC"] = np.array([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]])
HPKOT["oA"] = np.array([[0, .5, -.5], [0, .5, .5], [1, 0, 0]])
HPKOT["mC"] = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
HPKOT["hR"] = np.array([[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]) / 3
NP = {"P": 1, "A": 2, "C": 2, "I": 2, "F": 4, "R": 3}


def check(ctx):
    it = crystal_interp(ctx)
    for conv, tab in (("SC", SC), ("HPKOT", HPKOT)):
        for fam, cen in oracle.LATTICE_TYPES:
            ctx.ob(f"table {conv} {fam}{cen}", table, ctx, it, conv, fam + cen, tab[fam + cen], 1.0 if (conv, fam + cen) == ("SC", "hR") else 1.0 / NP[cen])
            ctx.ob(f"get_primitive {conv} {fam}{cen}", prim, ctx, it, conv, fam, cen, tab[fam + cen])


def table(ctx, it, conv, lt, want, det):
    v = it.public(f"wulfric.constants.{conv}_CONVENTIONAL_TO_PRIMITIVE")
    st = State()
    t = it.as_T(st, v)
    if t.op != "dict":
        raise Undecided("table is not a dictionary literal")
    d = {k.args[1]: x for k, x in t.args if k.op == "k"}
    if lt not in d:
        raise Violation(f"{conv}_CONVENTIONAL_TO_PRIMITIVE has no entry for {lt}", t.loc, f"{conv} missing {lt}")
    m = tm.np_const(d[lt])
    if m is None:
        raise Undecided("entry is not constant")
    m = np.asarray(m, dtype=float)
    loc = d[lt].loc
    if m.shape != (3, 3) or not np.allclose(m.T, want, atol=1e-9):
        raise Violation(f"{conv}_CONVENTIONAL_TO_PRIMITIVE[{lt!r}] is {np.round(m, 4).tolist()}, published is {np.round(want.T, 4).tolist()}", loc, f"{conv} table {lt}")
    if abs(np.linalg.det(m) - det) > 1e-9:
        raise Violation(f"determinant for {lt} is {np.linalg.det(m)}", loc, f"{conv} det {lt}")


def prim(ctx, it, conv, fam, cen, want):
    r, *_ = run_crystal(it, "wulfric.crystal.get_primitive", fam, cen, conv)
    r2, *_ = run_crystal(it, "wulfric.crystal.get_conventional", fam, cen, conv)
    if not isinstance(r.value, Tup) or not isinstance(r2.value, Tup):
        raise Undecided("result is not a pair")
    g = oracle.rng(ctx.seed, conv, fam, cen, "prim")
    for var in variants(g, fam, cen, 20 if ctx.thorough else 4):
        if fam == "m" and cen == "C" and abs(oracle.params(var)[4] - 90) < 1e-9:
            continue
        env = crystal_env(g, fam, cen, var)
        if rint.raised(r, env) is not None or rint.raised(r2, env) is not None:
            continue
        p = np.asarray(rint.val(r, r.value.items[0], env), dtype=float)
        c = np.asarray(rint.val(r2, r2.value.items[0], env), dtype=float)
        if not rint.close(p, want @ c):
            raise Violation(f"primitive cell is {np.round(p @ np.linalg.inv(c), 4).tolist()} in units of the conventional {conv} cell, "
                            f"published is {np.round(want, 4).tolist()}", rint.blame(r, r.value.items[0]), f"{conv} {fam}{cen}")
        ctx.count("points")
