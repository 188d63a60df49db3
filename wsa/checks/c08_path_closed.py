"""Every label of a recommended k-path is among the returned points and has a plot name.

Closed world over lattice types, both conventions, all regions of their
variations, with and without inversion and time reversal: the path is well
formed, each of its labels has coordinates, each point has a plot label.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from ..interp import State
from . import kp
from .common import crystal_interp

LEVEL = "other"
FLOOR = 60


def check(ctx):
    it = crystal_interp(ctx)
    st = State()
    names = it.as_T(st, it.public("wulfric.constants.HS_PLOT_NAMES"))
    plot = {k.args[1]: v for k, v in names.args} if names.op == "dict" else None
    for conv in ("HPKOT", "SC", "hpkot", "sc"):
        for fam, cen in oracle.LATTICE_TYPES:
            for inv in (True, False):
                ns = kp.numbers(fam, cen, inv)
                if not ns:
                    continue
                for n in {ns[0], ns[-1]}:
                    for tr in (True, False):
                        ctx.ob(f"{conv} {fam}{cen} space group {n} time reversal {tr}", one, ctx, it, conv, fam, cen, n, tr, plot)


def one(ctx, it, conv, fam, cen, n, tr, plot):
    for env, name, cc, pc, path, pts, pr, loc in kp.evaluate(ctx, it, conv, fam, cen, n, n=10, with_time_reversal=tr):
        if not isinstance(path, str) or not isinstance(pts, dict):
            raise Violation(f"path is {type(path).__name__}, points are {type(pts).__name__}; {pr}", loc, f"types {name}")
        for sub in path.split("|"):
            labels = sub.split("-")
            if len(labels) < 2:
                raise Violation(f"subpath {sub!r} of {path!r} has less than two points; {pr}", loc, f"subpath {name}")
            for a, b in zip(labels, labels[1:]):
                if a == b:
                    raise Violation(f"segment {a}-{b} of {path!r} is empty; {pr}", loc, f"empty {name}")
            for x in labels:
                if x not in pts:
                    raise Violation(f"label {x!r} of the path {path!r} is not among the returned points {sorted(pts)}; {pr}", loc, f"missing {name} {x}")
        for x, v in pts.items():
            if np.asarray(v).shape != (3,):
                raise Violation(f"coordinates of {x} have the shape {np.asarray(v).shape}; {pr}", loc, f"shape {name} {x}")
            if plot is not None and x not in plot:
                raise Violation(f"point {x!r} has no plot name; {pr}", loc, f"plot {name} {x}")
        if "GAMMA" not in pts or not np.allclose(np.asarray(pts["GAMMA"], dtype=float), 0):
            raise Violation(f"GAMMA is not the origin; {pr}", loc, f"gamma {name}")
