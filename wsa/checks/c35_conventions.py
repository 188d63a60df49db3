"""Names of conventions and strategies in any letter case mean the same, unknown names are refused.

For every lattice type the function is analysed with the canonical and with
another spelling of the name, the value graphs of both results are compared;
for unknown names every way out is enumerated.
"""
import numpy as np

from .. import oracle, oracle_k, rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State, Tup
from .calls import atoms
from .common import crystal_env, crystal_interp, run_crystal

LEVEL = "other"
FLOOR = 150
CRYSTAL = {"wulfric.crystal.get_conventional": ("HPKOT", "SC", "spglib"), "wulfric.crystal.get_primitive": ("HPKOT", "SC", "spglib"),
           "wulfric.kpoints.get_path_and_points": ("HPKOT", "SC"), "wulfric.Kpoints.from_crystal": ("HPKOT", "SC")}
BAD = ("", "HPKOT ", "HPK", "setyawan", "spglibs", "S", "none", "SC,HPKOT")
TYPES = (("c", "P"), ("c", "F"), ("t", "I"), ("o", "F"), ("o", "C"), ("h", "P"), ("h", "R"), ("m", "P"), ("m", "C"), ("a", "P"))


def check(ctx):
    it = crystal_interp(ctx)
    for fn, names in CRYSTAL.items():
        for fam, cen in TYPES:
            for c in names:
                for s in sorted({c.lower(), c.upper(), c.capitalize(), c.swapcase()} - {c}):
                    ctx.ob(f"{fn.split('.')[-1]}({s}) for {fam}{cen}", same, ctx, it, fn, fam, cen, c, s)
            ctx.ob(f"{fn.split('.')[-1]}: default for {fam}{cen}", same, ctx, it, fn, fam, cen, "HPKOT", None)
            for s in BAD + (() if "spglib" in names else ("spglib", "SPGLIB")):
                ctx.ob(f"{fn.split('.')[-1]}({s!r}) for {fam}{cen}", refused, ctx, it, fn, fam, cen, s)
    p = ctx.interp("plain")
    for c in ("all", "repeated-only"):
        for s in (c.upper(), c.capitalize(), c.swapcase(), c.title()):
            for nm in (["Cr1", "Br", "Br"], ["Cr", "Br", "S"], ["a", "a", "a"]):
                ctx.ob(f"strategy {s} for {nm}", strategy, ctx, p, c, s, nm)
    for s in ("", "none", "repeated", "repeated only", "all ", "al", "every"):
        for nm in (["Cr1", "Br", "Br"], ["Cr", "Br", "S"]):
            ctx.ob(f"strategy {s!r} for {nm}", no_strategy, ctx, p, s, nm)


def run(ctx, it, fn, fam, cen, conv):
    n = oracle.REPRESENTATIVE[(fam, cen)][0]
    r, *_ = run_crystal(it, fn, fam, cen, conv, number=n, keys=("names",))
    return r


def plain(it, r, env, memo):
    v = r.value
    if "Kpoints" in str(getattr(it.obj(r.st, v).cls, "name", "")) if hasattr(v, "addr") else False:
        from . import kobj
        out = []
        for k in ("rcell", "hs_names", "hs_coordinates", "hs_labels", "path"):
            x, _ = kobj.get(it, r.st, v, k)
            out.append(rint.val(r, x, env, memo))
        return out
    return rint.val(r, v, env, memo)


def same(ctx, it, fn, fam, cen, c, s):
    r1, r2 = run(ctx, it, fn, fam, cen, c), run(ctx, it, fn, fam, cen, s)
    loc = fun_loc(it.public(fn))
    what = f"default convention differs from {c}" if s is None else f"convention {s!r} differs from {c!r}"
    if r1.st.pc != 0 and r2.st.pc == 0:
        raise Violation(f"{what}: {rint.cls_name(r2.raises[-1].cls)}", r2.raises[-1].loc, f"{fn} refuses")
    g = oracle.rng(ctx.seed, fn, fam, cen)
    used = 0
    for cl in oracle_k.region_cells(g, fam, cen, 4)[:12]:
        env = crystal_env(g, fam, cen, cl)
        m1, m2 = {}, {}
        x1, x2 = rint.raised(r1, env, m1), rint.raised(r2, env, m2)
        if (x1 is None) != (x2 is None):
            raise Violation(f"{what}: {rint.cls_name((x1 or x2).cls)} for one of them", (x1 or x2).loc, f"{fn} raises")
        if x1 is not None:
            continue
        used += 1
        if fn.endswith("get_primitive"):
            # its loop over atoms is not of closed form, cells are compared
            eq = rint.same(rint.val(r1, r1.value.items[0], env, m1), rint.val(r2, r2.value.items[0], env, m2))
        else:
            eq = rint.same(plain(it, r1, env, m1), plain(it, r2, env, m2))
        if not eq:
            raise Violation(f"{what}: other result", rint.exit_at(r2, env, m2, loc), f"{fn} differs")
    if not used:
        raise Undecided("no admissible representative")
    ctx.count("points", used)


def refused(ctx, it, fn, fam, cen, s):
    r = run(ctx, it, fn, fam, cen, s)
    if rint.returned(r):
        g = oracle.rng(ctx.seed, fn, fam, cen)
        for cl in oracle_k.region_cells(g, fam, cen, 4)[:6]:
            env = crystal_env(g, fam, cen, cl)
            if rint.raised(r, env, strict=True) is None:
                raise Violation(f"unsupported convention {s!r} is accepted", rint.exit_at(r, env, {}, fun_loc(it.public(fn))), f"{fn} accepts")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) != "ConventionNotSupported" and r.st.pc == 0 and len(r.raises) == 1:
            raise Violation(f"{rint.cls_name(x.cls)} instead of ConventionNotSupported for the convention {s!r}", x.loc, f"{fn} class")
    g = oracle.rng(ctx.seed, fn, fam, cen)
    for cl in oracle_k.region_cells(g, fam, cen, 4)[:6]:
        env = crystal_env(g, fam, cen, cl)
        x = rint.raised(r, env)
        if x is not None and rint.cls_name(x.cls) != "ConventionNotSupported":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ConventionNotSupported for the convention {s!r}", x.loc, f"{fn} class")


def strat(it, s, nm):
    st = State()
    return it.run("wulfric.crystal.get_unique_names", [atoms(it, st, "array", values=dict(names=list(nm)))], dict(strategy=s), st=st)


def strategy(ctx, it, c, s, nm):
    r1, r2 = strat(it, c, nm), strat(it, s, nm)
    loc = fun_loc(it.public("wulfric.crystal.get_unique_names"))
    if r2.st.pc == 0:
        raise Violation(f"strategy {s!r} is refused", r2.raises[-1].loc, "strategy refused")
    a, b = rint.val(r1, r1.value, {}), rint.val(r2, r2.value, {})
    if list(a) != list(b):
        raise Violation(f"strategy {s!r} gives {b}, {c!r} gives {a}", r2.exits[-1].loc if r2.exits else loc, "strategy differs")


def no_strategy(ctx, it, s, nm):
    r = strat(it, s, nm)
    if rint.returned(r):
        raise Violation(f"unknown strategy {s!r} is accepted", r.exits[-1].loc if r.exits else None, "strategy accepted")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for the strategy {s!r}", x.loc, "strategy class")
