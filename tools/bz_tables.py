"""Development-time validation of wsa/oracle_points.py: every point lies on the surface of the BZ (no code of wulfric involved)."""
import itertools, sys
sys.path.insert(0, "/verif")
import numpy as np
from wsa import oracle, oracle_k, oracle_points
from wsa.checks.common import PRIM_STD
from wsa.checks import c05_published_primitive as c05


def onbz(k, rec):
    G = np.array([n for n in itertools.product(range(-4, 5), repeat=3) if any(n)]) @ rec
    d = np.linalg.norm(k - G, axis=1).min() - np.linalg.norm(k)
    return d


def sc_conv(lt, c):
    return c


bad = {}
g = oracle.rng(5)
for fam, cen in oracle.LATTICE_TYPES:
    lt = fam + cen
    for c in oracle_k.region_cells(g, fam, cen, 400):
        if fam == "a":
            n = oracle.niggli(oracle.recip(c))
            best = None
            for p in itertools.permutations(range(3)):
                k = n[list(p)]
                if abs(k[0] @ k[1]) <= min(abs(k[0] @ k[2]), abs(k[1] @ k[2])) + 1e-12:
                    best = k
            c = oracle.recip(best)
        if fam == "m":
            a, b, cc, al, be, ga = oracle.params(c)
            if be < 90.5 or -2 * a * cc * np.cos(np.radians(be)) > min(a * a, cc * cc):
                continue
        if lt == "oF" and abs(2 * min(1 / np.diag(np.abs(c @ c.T)) ** 0 ) ) < 0:
            continue
        if lt == "mC" and abs(oracle.params(c)[4] - 90) < 1:
            continue
        for num in oracle.REPRESENTATIVE[(fam, cen)][::6]:
            for s in oracle_k.hpkot_symbols(num, c):
                pts, path = oracle_points.points(oracle_points.HPKOT, s, c, oracle.params(c))
                prim = c05.HPKOT[lt] @ c
                rec = oracle.recip(prim)
                for q in set(path.replace("|", "-").split("-")):
                    assert q in pts, (s, q)
                for q, v in pts.items():
                    d = onbz(np.array(v) @ rec, rec)
                    if q != "GAMMA" and abs(d) > 1e-6:
                        bad.setdefault(("HPKOT", s, q), []).append(round(d, 4))
        if fam == "a":
            continue
        # SC cells
        sc = c
        a, b, cc, al, be, ga = oracle.params(c)
        if fam == "o" and cen in "PIF":
            sc = np.diag(sorted([a, b, cc]))
        elif lt == "oC":
            sc = np.diag([min(a, b), max(a, b), cc])
        elif lt == "oA":
            sc = np.diag([min(cc, b), max(cc, b), a])
        elif fam == "m":
            # unique axis b -> a; alpha < 90
            x, z = sorted([a, cc]) if cen == "P" else (a, cc)
            sc = oracle.from_params(b, x, z, 180 - be if be > 90 else be, 90, 90)
        elif lt == "hR":
            prim = np.array([[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]) / 3 @ c
            sc = prim
            if abs(oracle.params(prim)[3] - 90) < .1:
                continue
        prim = c05.SC[lt] @ sc
        v = oracle_k.sc_variations(lt, sc, prim)
        if v in (None, "error"):
            continue
        pts, path = oracle_points.points(oracle_points.SC, v, sc, oracle.params(sc))
        rec = oracle.recip(prim)
        for q in set(path.replace("|", "-").split("-")):
            assert q in pts, (v, q)
        for q, w in pts.items():
            d = onbz(np.array(w) @ rec, rec)
            if q != "GAMMA" and abs(d) > 1e-4:
                bad.setdefault(("SC", v, q), []).append(round(d, 4))
for k, v in bad.items():
    print(k, len(v), v[:4])
