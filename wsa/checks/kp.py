"""Shared: extraction of get_path_and_points for lattice types, regions, flags."""
import numpy as np

from .. import oracle, oracle_k, oracle_points, rint
from ..core import Undecided, Violation
from .common import Tup, crystal_env, run_crystal

FN = "wulfric.kpoints.get_path_and_points"


def numbers(fam, cen, inversion=None):
    return [n for n in oracle.REPRESENTATIVE[(fam, cen)] if inversion is None or oracle.ita_inversion(n) == inversion]


def evaluate(ctx, it, conv, fam, cen, number, n=24, **kw):
    """Yields (env, name of the class, conv cell, prim cell, path, points, loc) over the regions; names are per specification."""
    r, *_ = run_crystal(it, FN, fam, cen, conv, number=number, keys=(), extra_kwargs=kw)
    rc, *_ = run_crystal(it, "wulfric.crystal.get_conventional", fam, cen, conv, number=number, keys=())
    rp, *_ = run_crystal(it, "wulfric.crystal.get_primitive", fam, cen, conv, number=number, keys=())
    g = oracle.rng(ctx.seed, conv, fam, cen, number, sorted(kw.items()))
    used = 0
    for c in oracle_k.region_cells(g, fam, cen, n if not ctx.thorough else 4 * n):
        env = crystal_env(g, fam, cen, c)
        # another basis of the crystal's lattice, a supercell now and then
        u = [np.array([[1, 1, 0], [0, 1, 0], [0, -1, 1]]), np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), np.diag([2, 1, 1])][int(g.integers(3))]
        env["cell"] = env["sd.original_cell"] = u @ env["sd.primitive_cell"]
        memo = {}
        x = rint.raised(rc, env) or rint.raised(rp, env)
        if x is not None:
            continue
        cc = np.asarray(rint.val(rc, rc.value.items[0], env), dtype=float)
        pc = np.asarray(rint.val(rp, rp.value.items[0], env), dtype=float)
        if conv.lower() == "sc":
            name = oracle_k.sc_variations(fam + cen, cc, pc)
            if name in (None, "error"):
                continue
            names = {name}
        else:
            names = oracle_k.hpkot_symbols(number, cc)
        if len(names) != 1:
            continue
        name = names.pop()
        x = rint.raised(r, env, memo)
        pr = f"{conv} {name}, parameters of the conventional cell {np.round(oracle.params(cc), 4)}"
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised for {pr}", x.loc, f"raises {conv} {name}")
        if not isinstance(r.value, Tup) or len(r.value.items) != 2:
            raise Undecided("result is not a pair")
        path = rint.val(r, r.value.items[0], env, memo)
        pts = rint.val(r, r.value.items[1], env, memo)
        used += 1
        yield env, name, cc, pc, path, pts, pr, rint.exit_at(r, env, memo, r.it.loc)
    ctx.count("points", used)
    if not used:
        raise Undecided("no admissible representative")


def published(conv, name, cc):
    return oracle_points.points(oracle_points.SC if conv.lower() == "sc" else oracle_points.HPKOT, name, cc, oracle.params(cc))
