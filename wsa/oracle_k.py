"""Published classification rules (Hinuma et al. 2017, table 94 and section 3; Setyawan & Curtarolo 2010),
written down independently of the analysed package, and cells on every side of every rule."""
import math

import numpy as np

from . import oracle

# ------------------------------------------------------------------ HPKOT
HP1 = set(range(143, 150)) | {151, 153, 157} | set(range(159, 164))


def hpkot_symbols(number, conv, tol=1e-7):
    """Admissible symbols (more than one only on a boundary between two regions, where round-off decides)."""
    lt = oracle.ita_family(number) + oracle.ita_centring(number)
    a, b, c, al, be, ga = oracle.params(conv)
    if lt in ("cI", "tP", "oP", "mP"):
        return {lt + "1"}
    if lt in ("cP", "cF"):
        return {lt + ("1" if number <= 206 else "2")}
    if lt == "hP":
        return {"hP1" if number in HP1 else "hP2"}

    def le(x, y):
        return None if abs(x - y) < tol * max(1, abs(x)) else bool(x < y)
    out = set()
    if lt == "tI":
        return {"tI1"} if abs(a - c) < 1e-9 or c < a else {"tI2"}
    if lt == "oF":
        x1, x2 = le(1 / b ** 2 + 1 / c ** 2, 1 / a ** 2), le(1 / a ** 2 + 1 / b ** 2, 1 / c ** 2)
        if x1 in (True, None):
            out.add("oF1")
        if x2 in (True, None):
            out.add("oF2")
        if not x1 and not x2:
            out.add("oF3")
        return out
    if lt == "oI":
        m = max(a, b, c)
        return {s for s, x in (("oI1", c), ("oI2", a), ("oI3", b)) if x > m - 1e-9}
    if lt == "oC":
        return {"oC1"} if abs(a - b) < 1e-9 or a < b else {"oC2"}
    if lt == "oA":
        return {"oA1"} if abs(b - c) < 1e-9 or b < c else {"oA2"}
    if lt == "hR":
        x = le(math.sqrt(3) * a, math.sqrt(2) * c)
        return {"hR1", "hR2"} if x is None else {"hR1" if x else "hR2"}
    if lt == "mC":
        be = math.radians(be)
        x = le(b, a * math.sin(be))
        y = le(-a * math.cos(be) / c + (a * math.sin(be) / b) ** 2, 1)
        if x is not False:
            out.add("mC1")
        if x is not True:
            if y is not False:
                out.add("mC2")
            if y is not True:
                out.add("mC3")
        return out
    ra, rb, rg = oracle.params(oracle.recip(conv))[3:]
    if all(x >= 90 + 1e-6 for x in (ra, rb, rg)):
        return {"aP2"}
    if all(x >= 90 - 1e-6 for x in (ra, rb, rg)):
        return {"aP2"}
    return {"aP3"}


# ------------------------------------------------------------------ SC
SC_SHORT = {"cP": "CUB", "cF": "FCC", "cI": "BCC", "tP": "TET", "tI": "BCT", "oP": "ORC", "oF": "ORCF", "oI": "ORCI", "oC": "ORCC", "oA": "ORCC",
            "hP": "HEX", "hR": "RHL", "mP": "MCL", "mC": "MCLC", "aP": "TRI"}


def cmp3(x, y, eps):
    """-1, 0, 1 with the tolerance; None when the difference is comparable with the tolerance."""
    d = x - y
    if abs(d) < 0.5 * eps:
        return 0
    if abs(d) > 2 * eps:
        return -1 if d < 0 else 1
    return None


def sc_variations(lt, conv, prim, symprec=1e-5, ang=1e-4):
    """Admissible names, 'error' when the convention does not define the variation, None if not specified."""
    a, b, c, al, be, ga = oracle.params(conv)
    if lt == "tI":
        return "BCT1" if a > c + 1e-9 else ("BCT2" if c > a + 1e-9 else "error")
    if lt == "oF":
        if cmp3(a, b, symprec) == 0 or cmp3(b, c, symprec) == 0:
            return "error"
        x = cmp3(a, a ** 3 * (1 / b ** 2 + 1 / c ** 2), symprec)
        return None if x is None else {0: "ORCF3", 1: "ORCF1", -1: "ORCF2"}[x]
    if lt == "hR":
        x = cmp3(al, 90, ang)
        return None if x is None else {0: "error", -1: "RHL1", 1: "RHL2"}[x]
    if lt == "mC":
        kg = oracle.params(oracle.recip(prim))[5]
        x = cmp3(kg, 90, ang)
        if x is None:
            return None
        if x >= 0:
            return {0: "MCLC2", 1: "MCLC1"}[x]
        al = math.radians(al)
        y = cmp3(b * (b * math.cos(al) / c + (b * math.sin(al) / a) ** 2), b, symprec)
        return None if y is None else {0: "MCLC4", -1: "MCLC3", 1: "MCLC5"}[y]
    if lt == "aP":
        x = [cmp3(v, 90, ang) for v in oracle.params(oracle.recip(conv))[3:]]
        if None in x:
            return None
        if x[0] == 0 or x[1] == 0:
            return "error"
        if x[2] == 0:
            return "TRI2a" if x[0] == x[1] == 1 else ("TRI2b" if x[0] == x[1] == -1 else None)
        return "TRI1a" if x == [1, 1, 1] else ("TRI1b" if x == [-1, -1, -1] else None)
    return SC_SHORT[lt]


# ------------------------------------------------------------------ cells
def region_cells(g, fam, cen, n):
    """Standard (spglib setting) cells on every side of every classification rule of both conventions."""
    out = []
    lt = fam + cen
    if lt == "tI":
        for a, c in [(3, 4), (4, 3), (3, 9), (9, 3), (3, 3.1), (3.1, 3), (4, 4), (3, 3.0001), (3.0001, 3), (3, 3.0000002), (3.0000002, 3)]:
            out.append(np.diag([a, a, float(c)]))
    elif lt == "oF":
        for a, b, c in [(3, 5, 6), (4, 5, 6), (3, 4, 20), (5, 5.5, 6), (2, 3, 4), (6, 5, 3), (6, 5, 4), (5, 3, 6), (5, 6, 3), (3, 6, 5), (4, 6, 5), (6, 3, 5),
                        (4.9, 5, 5.1), (3, 3, 5)]:
            out.append(np.diag([float(a), float(b), float(c)]))
        for b, c in ((5.0, 6.0), (4.0, 4.5), (9.0, 3.0)):
            a = 1 / math.sqrt(1 / b ** 2 + 1 / c ** 2)
            for p in ([0, 1, 2], [2, 1, 0], [1, 2, 0]):
                for d in (0, 2e-6, -2e-6, 1e-3, -1e-3):
                    x = 1 / math.sqrt(1 / b ** 2 + 1 / c ** 2 + d)
                    out.append(np.diag(np.array([x, b, c])[p]))
    elif lt in ("oI", "oC", "oA", "oP"):
        import itertools
        for p in itertools.permutations([3.0, 4.0, 5.5]):
            out.append(np.diag(p))
        for p in [(3, 3, 5), (5, 3, 3), (3, 5, 3), (5, 5, 3), (5, 3, 5), (3, 5, 5), (4, 4, 4), (3, 3.1, 3.2), (3.2, 3.1, 3), (3, 3.0001, 5), (3.0001, 3, 5), (5, 3, 3.0001), (5, 3.0001, 3), (3, 5, 3.0001), (3.0001, 5, 3), (3, 3.0001, 2), (3.0001, 3, 2), (2, 3, 3.0001), (2, 3.0001, 3), (3, 2, 3.0001), (3.0001, 2, 3), (3, 3.0000002, 5), (3.0000002, 3, 5), (5, 3, 3.0000002), (5, 3.0000002, 3), (3, 3.0000002, 2), (3.0000002, 3, 2), (2, 3, 3.0000002), (2, 3.0000002, 3), (3, 2, 3.0000002), (3.0000002, 2, 3)]:
            out.append(np.diag([float(x) for x in p]))
    elif lt == "hR":
        for a, c in [(3, 3), (3, 4), (4, 3), (3, 3.6), (3, 3.7), (3, 9), (9, 3), (5, 6), (5, 6.2), (3, 3 * math.sqrt(1.5)), (3, 3 * math.sqrt(1.5) * (1 + 1e-5)), (3, 3 * math.sqrt(1.5) * (1 - 1e-5))]:
            out.append(oracle.from_params(a, a, c, 90, 90, 120))
    elif lt == "mC":
        for a, b, c, be in [(4, 3, 5, 110), (3, 4, 5, 110), (3, 4, 5, 100), (6, 3, 4, 120), (3, 3.1, 9, 120), (3, 3.1, 2, 120), (5, 5.1, 2, 125), (5, 7, 3, 100),
                            (3, 9, 3, 91), (4, 4, 4, 120), (9, 3, 3, 95), (4, 3.9, 4, 92), (5, 5.5, 2.5, 110), (3, 4, 3, 105), (3, 3.2, 8, 95), (5, 4.99, 9, 100), (3, 4, 5, 90), (5, 3, 4, 90), (4, 3, 5, 90.2), (3, 4, 5, 89.8)]:
            out.append(oracle.from_params(a, b, c, 90, be, 90))
        # SC: k_gamma = 90 of the primitive cell, i.e. a_SC = b_SC sin(alpha): in the standard setting b = a sin(beta)
        for a, c, be in ((4.0, 5.0, 110.0), (5.0, 3.0, 100.0), (3.0, 7.0, 125.0)):
            b = a * math.sin(math.radians(be))
            out += [oracle.from_params(a, b * f, c, 90, be, 90) for f in (1, 1 - 1e-7, 1 + 1e-7, 1 + 1e-4, 1 - 1e-4, 1.01, 0.99)]
            # SC: b cos(alpha)/c + b^2 sin(alpha)^2/a^2 = 1
            for d in (0, 2e-6, -2e-6, 1e-3, -1e-3):
                t = -a * math.cos(math.radians(be)) / c
                b = a * math.sin(math.radians(be)) / math.sqrt(max(1e-9, 1 - t + d))
                out.append(oracle.from_params(a, b, c, 90, be, 90))
    elif lt == "aP":
        for s in range(8):
            sg = [1 if s & (1 << i) else -1 for i in range(3)]
            for k in range(3):
                al, be, ga = [90 + x * g.uniform(4, 20) for x in sg]
                r = oracle.from_params(g.uniform(2, 5), g.uniform(2, 5), g.uniform(2, 5), al, be, ga)
                out.append(oracle.recip(r))
        for al, be, ga in [(80, 85, 70), (70, 80, 85), (85, 70, 80), (100, 95, 110), (110, 100, 95), (95, 110, 100), (90, 80, 85), (90, 90, 80), (90, 100, 95),
                           (100, 90, 110), (80, 70, 90), (100, 95, 90), (80, 85, 90), (95, 95, 90), (90, 90, 90), (90, 95, 90)]:
            for l in ((3.1, 2.7, 4.2), (2.0, 3.0, 4.0), (4.0, 3.5, 2.5)):
                out.append(oracle.recip(oracle.from_params(*l, al, be, ga)))
        for d in (2e-5, -2e-5, 1e-3, -1e-3):
            out.append(oracle.recip(oracle.from_params(2, 3, 4, 80, 85, 90 + d)))
            out.append(oracle.recip(oracle.from_params(2, 3, 4, 100, 95, 90 + d)))
    elif fam == "h":
        out += [oracle.from_params(a, a, c, 90, 90, 120) for a, c in ((3, 5), (5, 3), (4, 4))]
    elif fam == "t":
        out += [np.diag([a, a, c]) for a, c in ((3.0, 5.0), (5.0, 3.0), (4.0, 4.0))]
    elif fam == "c":
        out += [np.eye(3) * 3.3, np.eye(3) * 7.0]
    elif fam == "m":
        out += [oracle.from_params(a, b, c, 90, be, 90) for a, b, c, be in ((3, 4, 5, 100), (5, 4, 3, 110), (4, 4, 4, 95), (3, 5, 3, 120), (3, 4, 5, 90), (3, 4, 5, 90.3), (5, 4, 3, 90.02), (3, 5, 4, 90.8))]
    rot = [x @ oracle.random_rotation(g) if i % 2 else x for i, x in enumerate(out)]
    while len(rot) < n:
        rot.append(oracle.std_cell(g, fam, cen))
    return rot
