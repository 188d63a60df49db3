"""Recommended path and coordinates of the high-symmetry points are the published ones.

The value graph of the coordinates (relative to the reciprocal primitive cell of
the same convention) is compared point by point with an independent table of the
publications at random lattice parameters of every region.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from . import kp
from .common import crystal_interp

LEVEL = "other"
FLOOR = 30
ASSUMPTIONS = ["tables of wsa/oracle_points.py (every point was validated to lie on the surface of the Brillouin zone by tools/bz_tables.py; F3 of MCLC1 is as published)"]


def check(ctx):
    it = crystal_interp(ctx)
    for conv in ("HPKOT", "SC"):
        for fam, cen in oracle.LATTICE_TYPES:
            ns = kp.numbers(fam, cen)
            use = ns if ctx.thorough else {ns[0], ns[-1], ns[len(ns) // 2]}
            if conv == "HPKOT" and (fam + cen) in ("cP", "cF", "hP"):
                use = set(ns[::2]) | set(use)
            for n in sorted(use):
                ctx.ob(f"{conv} {fam}{cen} space group {n}", one, ctx, it, conv, fam, cen, n)


def one(ctx, it, conv, fam, cen, n):
    for env, name, cc, pc, path, pts, pr, loc in kp.evaluate(ctx, it, conv, fam, cen, n, n=16, relative=False):
        want, wpath = kp.published(conv, name, cc)
        if path != wpath:
            raise Violation(f"path {path!r}, published {wpath!r}; {pr}", loc, f"path {conv} {name}")
        if set(pts) != set(want):
            raise Violation(f"points {sorted(set(pts) ^ set(want))} are missing or not published; {pr}", loc, f"names {conv} {name}")
        rec = oracle.recip(pc)
        for k, v in want.items():
            got = np.asarray(pts[k], dtype=float) @ np.linalg.inv(rec)
            if not rint.close(got, v, 1e-6):
                raise Violation(f"{k} is {np.round(got, 6)} in the reciprocal primitive cell, published {np.round(v, 6)}; {pr}", loc, f"point {conv} {name} {k}")
