"""The extended Bravais lattice symbol of the HPKOT convention is the published one.

For each of the 230 space groups the decision structure that yields the symbol
is extracted (conventional cell inlined, get_params summarised) and read off on
representatives of every region of the published table, ties included.
"""
import numpy as np

from .. import oracle, oracle_k, rint
from ..core import Undecided, Violation
from .common import crystal_env, crystal_interp, run_crystal

LEVEL = "other"
FLOOR = 230
FN = "wulfric.crystal.hpkot_get_extended_bl_symbol"


def check(ctx):
    it = crystal_interp(ctx)
    for n in range(1, 231):
        ctx.ob(f"space group {n}", one, ctx, it, n)


def one(ctx, it, number):
    fam, cen = oracle.ita_family(number), oracle.ita_centring(number)
    r, *_ = run_crystal(it, FN, fam, cen, None, number=number, keys=())
    g = oracle.rng(ctx.seed, number, "sym")
    first = oracle.REPRESENTATIVE[(fam, cen)][0] == number
    cells = oracle_k.region_cells(g, fam, cen, 12 if not ctx.thorough else 80)
    if not (first or ctx.thorough) and (fam + cen) not in ("cP", "cF", "hP"):
        cells = cells[::3]
    r2, *_ = run_crystal(it, "wulfric.crystal.get_conventional", fam, cen, "HPKOT", number=number, keys=())
    for c in cells:
        env = crystal_env(g, fam, cen, c)
        memo = {}
        x = rint.raised(r, env, memo)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised for the space group {number} with standard parameters {np.round(oracle.params(c), 4)}", x.loc, "raises")
        got = rint.val(r, r.value, env, memo)
        conv = np.asarray(rint.val(r2, r2.value.items[0], env), dtype=float)
        if got is None:
            raise Violation(f"None is returned for the space group {number}, parameters {np.round(oracle.params(conv), 4)}", rint.exit_at(r, env, memo), f"none {fam}{cen}")
        want = oracle_k.hpkot_symbols(number, conv)
        if got not in want:
            raise Violation(f"{got} is returned instead of {' or '.join(sorted(want))} for the space group {number}, parameters of the conventional cell "
                            f"{np.round(oracle.params(conv), 4)}", rint.exit_at(r, env, memo), f"{fam}{cen} {got} {'/'.join(sorted(want))}")
        ctx.count("points")
