"""Without inversion and time reversal the path is extended with the opposite points; otherwise it is not.

For every space group and both values of the flag: either path and points are
the ones of the convention, or the path is followed by its copy with every label
but GAMMA marked and each marked point is minus the original one.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from . import kp
from .common import crystal_interp

LEVEL = "other"
FLOOR = 230


def check(ctx):
    it = crystal_interp(ctx)
    for n in range(1, 231):
        ctx.ob(f"space group {n}", one, ctx, it, n)


def one(ctx, it, n):
    fam, cen = oracle.ita_family(n), oracle.ita_centring(n)
    for conv in ("HPKOT", "SC"):
        for tr in (True, False, None):
            kw = {} if tr is None else dict(with_time_reversal=tr)
            ext = tr is False and not oracle.ita_inversion(n)
            done = set()
            every = [(rel, x) for rel in ((False, True) if ext else (False,)) for x in kp.evaluate(ctx, it, conv, fam, cen, n, n=2, relative=rel, **kw)]
            for rel, (env, name, cc, pc, path, pts, pr, loc) in every:
                if (rel, name) in done and not ctx.thorough:
                    continue
                done.add((rel, name))
                pr = f"space group {n}, time reversal {tr}, {pr}" + (", relative coordinates" if rel else "")
                marked = [k for k in pts if k.endswith("_P")]
                half = len(path) if not ext else None
                if not ext:
                    if marked or "_P" in path:
                        raise Violation(f"path or points are extended though the band structure is even; {pr}", loc, f"extended {oracle.ita_inversion(n)} {tr}")
                    continue
                base = [k for k in pts if not k.endswith("_P")]
                for k in base:
                    if k == "GAMMA":
                        if "GAMMA_P" in pts:
                            raise Violation(f"GAMMA is duplicated; {pr}", loc, "gamma duplicated")
                        continue
                    if k + "_P" not in pts:
                        raise Violation(f"opposite of {k} is missing; {pr}", loc, "missing opposite")
                    if not rint.close(np.asarray(pts[k + "_P"], dtype=float), -np.asarray(pts[k], dtype=float)):
                        raise Violation(f"{k}_P is not minus {k}; {pr}", loc, "not opposite")
                subs = path.split("|")
                if len(subs) % 2:
                    raise Violation(f"path {path!r} is not doubled; {pr}", loc, "not doubled")
                h = len(subs) // 2
                first = "|".join(subs[:h])
                second = "|".join("-".join(x if x == "GAMMA" else x + "_P" for x in s.split("-")) for s in subs[:h])
                if path != first + "|" + second or "_P" in first:
                    raise Violation(f"path {path!r} is not the path followed by its opposite; {pr}", loc, "path extension")
