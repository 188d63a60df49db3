"""Comparison with tolerance and the check of parameters of a parallelepiped.

Result terms and guards of the raises are evaluated on representatives of every
region of the tolerance comparison and of every single violated inequality.
"""
import itertools

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Violation, fun_loc
from ..interp import State
from .c21_cell_geometry import PN
from .calls import sym

LEVEL = "proof"
FLOOR = 20
CMP, PAR, FP = "wulfric.compare_with_tolerance", "wulfric.geometry.parallelepiped_check", "wulfric.cell.from_params"
DEF = {"<": lambda x, y, e: x < y - e, ">": lambda x, y, e: y < x - e, "<=": lambda x, y, e: not y < x - e, ">=": lambda x, y, e: not x < y - e,
       "==": lambda x, y, e: not (x < y - e or y < x - e), "!=": lambda x, y, e: x < y - e or y < x - e}


def check(ctx):
    it = ctx.interp("plain")
    for c in DEF:
        for how in ("default", "eps", "rtol, atol"):
            ctx.ob(f"x {c} y with {how}", compare, ctx, it, c, how)
    for c in ("=<", "", "=", "<>", "is", None, "=>", "< "):
        ctx.ob(f"condition {c!r}", badcond, ctx, it, c)
    for how in ("default", "raise_error", "tolerances"):
        ctx.ob(f"parallelepiped_check, {how}", par, ctx, it, how)
    ctx.ob("from_params refuses impossible parameters", refuse, ctx, it)


def compare(ctx, it, c, how):
    kw = {} if how == "default" else dict(eps=sym("eps")) if how == "eps" else dict(rtol=sym("rtol"), atol=sym("atol"))
    r = it.run(CMP, [sym("x"), c, sym("y")], kw, st=State())
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(CMP))
    if r.st.pc == 0:
        raise Violation(f"condition {c} raises {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    g = oracle.rng(ctx.seed, c, how)
    pts = []
    for y in (0.0, 3.0, -50.0, 1e4, 1e-9):
        for eps, rtol, atol in ((1e-3, 1e-2, 1e-4), (0.5, 0.0, 1e-3), (1e-9, 1e-4, 0.0), (0.0, 0.0, 0.0)):
            e = dict(default=1e-8 + 1e-5 * abs(y), eps=eps)
            e = e.get(how, atol + rtol * abs(y))
            for d in (0.0, 0.5 * e, -0.5 * e, 1.5 * e, -1.5 * e, 1e-12 * (1 + abs(y)), -1e-12 * (1 + abs(y)), 0.9, -0.9, 30.0, -70.0, 0.99 * e, -1.01 * e):
                pts.append((y + d, y, e, eps, rtol, atol))
    for x, y, e, eps, rtol, atol in pts:
        v = rint.val(r, r.value, dict(x=x, y=y, eps=eps, rtol=rtol, atol=atol))
        ctx.count("points")
        if bool(v) != DEF[c](x, y, e):
            raise Violation(f"{x} {c} {y} with the tolerance {e} is {bool(v)}", loc, f"compare {c}")


def badcond(ctx, it, c):
    r = it.run(CMP, [sym("x"), c, sym("y")], {}, st=State())
    if rint.returned(r):
        raise Violation(f"condition {c!r} is accepted", r.exits[-1].loc, "condition accepted")
    if any(rint.cls_name(q.cls) != "ValueError" for q in rint.sure(r)):
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the condition {c!r}", r.raises[-1].loc, "condition class")


def points(g):
    """Parameters, violated inequality (or None): every inequality alone, on both sides of the tolerance."""
    ok = [3.0, 4.0, 5.0, 80.0, 95.0, 110.0]
    out = [(ok, None), ([1e-3, 2, 3, 60, 60, 60], None), ([1, 1, 1, 90, 90, 90], None), ([1, 1, 1, 119.9, 119.9, 119.9], None), ([1, 1, 1, 10, 20, 29.5], None),
           ([1, 1, 1, 29.5, 10, 20], None), ([1, 1, 1, 10, 29.5, 20], None), ([1, 1, 1, 170, 20, 165], None)]
    for i in range(3):
        for v in (0.0, -1.0, -1e-3, 1e-10):
            p = list(ok)
            p[i] = v
            out.append((p, "length"))
    for i in range(3):
        j, k = [x for x in range(3) if x != i]
        for (ai, aj, ak), bad in (((50, 20, 25), "sum"), ((45, 20, 25), "sum"), ((45.00005, 20, 25), "sum"), ((44.9999, 20, 25 + 5e-5), "sum"), ((44.99, 20, 25), None),
                                  ((120, 120, 120), "360"), ((150, 130, 120), "360"), ((170, 100, 89.99), None), ((170, 100, 90.01), "360"),
                                  ((0, 50, 50), "0"), ((-10, 50, 50), "0"), ((180, 90, 90), "180"), ((200, 110, 110), "180"), ((5e-5, 50, 50), "0"), ((0.01, 50, 50), None),
                                  ((179.99, 90, 90), None), ((179.99995, 90, 90), "180")):
            p = [1.0, 2.0, 3.0, 0, 0, 0]
            p[3 + i], p[3 + j], p[3 + k] = ai, aj, ak
            out.append((p, bad))
            p = list(p)
            p[3 + j], p[3 + k] = p[3 + k], p[3 + j]
            out.append((p, bad))
    return out


def truth(p, lt=1e-8, at=1e-4):
    a, b, c, al, be, ga = p
    return (all(0 < x - lt for x in (a, b, c)) and all(0 < x - at and x < 180 - at for x in (al, be, ga)) and ga < al + be - at and be < al + ga - at and al < be + ga - at
            and al + be < 360 - ga - at and al + ga < 360 - be - at and be + ga < 360 - al - at)


def par(ctx, it, how):
    kw = dict(default={}, raise_error=dict(raise_error=True), tolerances=dict(length_tolerance=sym("lt"), angle_tolerance=sym("at")))[how]
    r = it.run(PAR, [sym(x) for x in PN], kw, st=State())
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(PAR))
    g = oracle.rng(ctx.seed, how)
    for p, bad in points(g):
        for lt, at in ((1e-8, 1e-4),) if how != "tolerances" else ((1e-8, 1e-4), (1e-2, 1e-4), (1e-8, 1.0), (1e-2, 2.0), (0.0, 0.0), (0.0, 1e-4), (1e-8, 0.0)):
            env = dict(zip(PN, map(float, p)))
            env.update(lt=lt, at=at)
            want = truth(p, lt, at)
            x = rint.raised(r, env, strict=True)
            ctx.count("points")
            if how == "raise_error":
                if (x is None) != want:
                    raise Violation(f"parameters {p}: {'no error is' if x is None else 'an error is'} raised", x.loc if x else loc, "raise_error")
                if x is not None and rint.cls_name(x.cls) != "ValueError":
                    raise Violation(f"{rint.cls_name(x.cls)} for the parameters {p}", x.loc, "raise_error class")
                if x is not None:
                    continue
            elif x is not None:
                raise Violation(f"parameters {p} raise {rint.cls_name(x.cls)}", x.loc, "raises")
            v = rint.val(r, r.value, env)
            if bool(v) != want:
                raise Violation(f"parameters {p} are judged as {'possible' if v else 'impossible'} (tolerances {lt}, {at})", loc, "judgement")


def refuse(ctx, it):
    r = it.run(FP, [sym(x) for x in PN], {}, st=State())
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(FP))
    for p, bad in points(oracle.rng(ctx.seed)):
        env = dict(zip(PN, map(float, p)))
        x = rint.raised(r, env, strict=True)
        if truth(p) != (x is None):
            raise Violation(f"from_params {'accepts' if x is None else 'refuses'} the parameters {p}", x.loc if x else loc, "from_params")
        if x is not None and rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} for the parameters {p}", x.loc, "from_params class")
