"""Conventional and primitive cells generate the lattice of the crystal, keep its orientation.

For every lattice type, convention and both functions the value graph of the
returned cell is extracted from the source (private helpers inlined, summaries
for get_params, get_niggli, spglib); at random points of every weak order of
the lattice parameters the rows of the returned cell are compared with the
lattice of the centred standard cell: they have to be lattice vectors, span the
required volume fraction and be right-handed exactly when the source cell is.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from .common import Tup, crystal_env, crystal_interp, run_crystal, variants

LEVEL = "other"
FLOOR = 80
ASSUMPTIONS = ["the cells of spglib's data set are right-handed or left-handed lattice bases in ITA standard setting (rotated)",
               "get_niggli returns another basis of the same lattice with the same handedness (decided separately)"]
N_POINTS = {"P": 1, "A": 2, "C": 2, "I": 2, "F": 4, "R": 3}


def check(ctx):
    it = crystal_interp(ctx)
    for conv in ("hpkot", "SC", "spglib"):
        for fam, cen in oracle.LATTICE_TYPES:
            for fn in ("get_conventional", "get_primitive"):
                ctx.ob(f"{fn} {conv} {fam}{cen}", one, ctx, it, fn, conv, fam, cen)


def one(ctx, it, fn, conv, fam, cen):
    r, cell, at, sd = run_crystal(it, "wulfric.crystal." + fn, fam, cen, conv)
    loc = rint.blame(r, r.value) or r.it.loc
    if not isinstance(r.value, Tup) or len(r.value.items) != 2:
        raise Undecided("result is not a pair")
    first = r.value.items[0]
    g = oracle.rng(ctx.seed, fn, conv, fam, cen)
    und = 0
    n = 0
    for var in variants(g, fam, cen, 40 if ctx.thorough else 8):
        if fam == "m" and cen == "C" and abs(oracle.params(var)[4] - 90) < 1e-9:
            continue
        env = crystal_env(g, fam, cen, var)
        memo = {}
        x = rint.raised(r, env, memo)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised for a {fam}{cen} crystal with lattice parameters "
                            f"{np.round(oracle.params(var), 4)}", x.loc, f"{fn} raises {conv} {fam}{cen}")
        new = np.asarray(rint.val(r, first, env, memo), dtype=float)
        if new.shape != (3, 3):
            raise Violation(f"the cell has the shape {new.shape}", loc)
        conv_src = env["sd.conventional_cell"]
        rel = new @ np.linalg.inv(conv_src)
        for i, row in enumerate(rel):
            if not oracle.is_lattice_vector(row, cen, 1e-6):
                raise Violation(f"vector {i} of the cell is {np.round(row, 6)} in units of the standard conventional cell: not a lattice vector "
                                f"of the {fam}{cen} lattice (parameters {np.round(oracle.params(var), 4)})", rint.blame(r, r.value))
        d = np.linalg.det(rel)
        want = 1.0
        if fn == "get_primitive" or (conv == "SC" and (fam, cen) == ("h", "R")):
            want = 1.0 / N_POINTS[cen]
        if abs(abs(d) - want) > 1e-6:
            raise Violation(f"volume is {abs(d):.6f} of the standard conventional cell instead of {want:.6f}", rint.blame(r, r.value))
        src = env["sd.primitive_cell"] if (conv == "SC" and (fam, cen) == ("h", "R")) or (conv == "spglib" and fn == "get_primitive") else conv_src
        if np.linalg.det(new) * np.linalg.det(src) < 0:
            raise Violation("handedness of the cell is reversed", rint.blame(r, r.value))
        n += 1
    ctx.count("points", n)
    ctx.sample(f"{fn} {conv} {fam}{cen}: {n} points, cell = {r.it.as_T(r.st, r.value.items[0])!r}"[:300])
