"""Relative coordinates of k-points refer to the reciprocal of the given cell, absolute ones to Cartesian axes.

The graphs for relative=True and relative=False are related by the reciprocal of
the user's cell (other bases and supercells of the lattice included); nothing
else (path, labels, default value) depends on the flag.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from . import kp
from .common import crystal_interp

LEVEL = "proof"
FLOOR = 30


def check(ctx):
    it = crystal_interp(ctx)
    for conv in ("HPKOT", "SC"):
        for fam, cen in oracle.LATTICE_TYPES:
            for inv in (True, False):
                for n in kp.numbers(fam, cen, inv)[:1]:
                    ctx.ob(f"{conv} {fam}{cen} space group {n}", one, ctx, it, conv, fam, cen, n)


def one(ctx, it, conv, fam, cen, n):
    for tr in (True, False):
        a = kp.evaluate(ctx, it, conv, fam, cen, n, n=10, relative=True, with_time_reversal=tr)
        b = kp.evaluate(ctx, it, conv, fam, cen, n, n=10, relative=False, with_time_reversal=tr)
        d = kp.evaluate(ctx, it, conv, fam, cen, n, n=10, with_time_reversal=tr)
        got = {}
        for which, gen in (("rel", a), ("abs", b), ("default", d)):
            for env, name, cc, pc, path, pts, pr, loc in gen:
                inv = np.linalg.inv(oracle.recip(env["cell"]))
                want, _ = kp.published(conv, name, cc)
                rec = oracle.recip(pc)
                for k, v in pts.items():
                    base = k[:-2] if k.endswith("_P") and k[:-2] in want else k
                    if base not in want:
                        continue
                    # position is decided elsewhere; here the frame: the point has to be the published one up to inversion in the right frame
                    t = np.array(want[base]) @ rec
                    if which != "abs":
                        t = t @ inv
                    v = np.asarray(v, dtype=float)
                    if not (rint.close(v, t, 1e-6) or rint.close(v, -t, 1e-6)):
                        f = "reciprocal of the given cell" if which != "abs" else "Cartesian axes"
                        raise Violation(f"{k} is {np.round(v, 5)}, {np.round(t, 5)} expected with respect to the {f} (relative = {which}); {pr}", loc, f"{which} {conv} {fam}{cen}")
