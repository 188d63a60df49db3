"""The conventional cell satisfies the ordering and angle conditions of its convention.

The decision structure which selects the transformation (with its helpers) is
extracted per lattice type; it is evaluated on representatives of every weak
order of the lattice parameters / every sign pattern of the reciprocal angles,
ties and right angles included, and the returned cell is held against the
published conditions of the convention (Setyawan & Curtarolo, Hinuma et al.,
spglib).
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from .common import Tup, crystal_env, crystal_interp, run_crystal, variants

LEVEL = "other"
FLOOR = 45
TOL = 1e-6


def check(ctx):
    it = crystal_interp(ctx)
    for conv in ("hpkot", "SC", "spglib", "HPKOT", "sc"):
        for fam, cen in oracle.LATTICE_TYPES:
            ctx.ob(f"get_conventional {conv} {fam}{cen}", one, ctx, it, conv, fam, cen)


def one(ctx, it, conv, fam, cen):
    r, *_ = run_crystal(it, "wulfric.crystal.get_conventional", fam, cen, conv)
    if not isinstance(r.value, Tup):
        raise Undecided("result is not a pair")
    first = r.value.items[0]
    loc = rint.blame(r, first)
    g = oracle.rng(ctx.seed, conv, fam, cen, "order")
    vs = variants(g, fam, cen, 60 if ctx.thorough else 10)
    for var in vs:
        if fam == "m" and cen == "C" and abs(oracle.params(var)[4] - 90) < 1e-9:
            continue
        env = crystal_env(g, fam, cen, var)
        memo = {}
        x = rint.raised(r, env, memo)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised for lattice parameters {np.round(oracle.params(var), 4)}", x.loc, "raises")
        new = np.asarray(rint.val(r, first, env, memo), dtype=float)
        src = env["sd.conventional_cell"]
        msg = spec(conv.lower(), fam, cen, new, src, env)
        if msg:
            raise Violation(f"{msg}; crystal {fam}{cen} with standard lattice parameters {np.round(oracle.params(var), 4)}, "
                            f"parameters of the returned cell {np.round(oracle.params(new), 4)}", loc, f"{conv.lower()} {fam}{cen}")
    ctx.count("representatives", len(vs))


def spec(conv, fam, cen, new, src, env):
    a, b, c, al, be, ga = oracle.params(new)
    if conv == "spglib" or (conv == "hpkot" and fam != "a"):
        return None if np.allclose(new, src) else "cell is not the standardised cell of spglib"
    rel = new @ np.linalg.inv(src)
    if conv == "hpkot":
        k = oracle.recip(new)
        ra, rb, rg = oracle.params(k)[3:]
        if not (all(x < 90 + 1e-7 for x in (ra, rb, rg)) or all(x > 90 - 1e-7 for x in (ra, rb, rg))):
            return "reciprocal angles are neither all acute nor all obtuse or right"
        d = [abs(k[1] @ k[2]), abs(k[0] @ k[2]), abs(k[0] @ k[1])]
        if d[2] > min(d) + TOL * (1 + d[2]):
            return "|k_a k_b cos(k_gamma)| is not the smallest one"
        n = np.sort(np.linalg.norm(oracle.niggli(oracle.recip(src)), axis=1))
        if not np.allclose(n, np.sort(np.linalg.norm(k, axis=1)), atol=1e-6):
            return "reciprocal vectors are not those of the reduced reciprocal cell"
        return None
    # SC
    if fam in "ct" or (fam, cen) == ("h", "P"):
        return None if np.allclose(new, src) else "cell differs from the standardised one"
    if fam == "h":
        if max(a, b, c) - min(a, b, c) > 1e-5 * a or max(al, be, ga) - min(al, be, ga) > 1e-3:
            return "vectors or angles of the rhombohedral cell are not equal"
        return None
    if fam == "o":
        if any(abs(x - 90) > 1e-6 for x in (al, be, ga)):
            return "angles are not right"
        if cen in "PIF":
            return None if a <= b + TOL and b <= c + TOL else "a <= b <= c does not hold"
        if not oracle.is_lattice_vector(np.array([.5, .5, 0]) @ rel, cen, 1e-6):
            return "cell is not C-centred"
        return None if a <= b + TOL else "a <= b does not hold"
    if fam == "m":
        if abs(be - 90) > 1e-6 or abs(ga - 90) > 1e-6:
            return "beta and gamma are not right angles"
        if al > 90 + 1e-3:
            return "alpha is larger than 90"
        if cen == "P" and b > c + TOL:
            return "b <= c does not hold"
        if cen == "C" and not oracle.is_lattice_vector(np.array([.5, .5, 0]) @ rel, cen, 1e-6):
            return "cell is not C-centred"
        return None
    ra, rb, rg = oracle.params(oracle.recip(new))[3:]
    if all(x >= 90 - 1e-3 for x in (ra, rb, rg)):
        return None if rg <= min(ra, rb) + 1e-6 else "reciprocal angles are all obtuse but k_gamma is not the smallest one"
    if all(x <= 90 + 1e-3 for x in (ra, rb, rg)):
        return None if rg >= max(ra, rb) - 1e-6 else "reciprocal angles are all acute but k_gamma is not the largest one"
    return "reciprocal angles are neither all acute nor all obtuse"
