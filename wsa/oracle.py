"""Independent mathematics used by the specifications (no code of the analysed package)."""
import itertools
import math

import numpy as np


def rng(seed, *salt):
    return np.random.default_rng([int(seed)] + [abs(hash_(s)) % (2 ** 31) for s in salt])


def hash_(s):
    h = 5381
    for c in str(s):
        h = (h * 33 + ord(c)) % (2 ** 31 - 1)
    return h


def recip(cell):
    return 2 * np.pi * np.linalg.inv(cell).T


def params(cell):
    n = np.linalg.norm(cell, axis=1)

    def ang(i, j):
        return math.degrees(math.acos(max(-1.0, min(1.0, float(cell[i] @ cell[j] / n[i] / n[j])))))
    return n[0], n[1], n[2], ang(1, 2), ang(0, 2), ang(0, 1)


def from_params(a, b, c, al, be, ga):
    al, be, ga = map(math.radians, (al, be, ga))
    cx = math.cos(be)
    cy = (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    cz = math.sqrt(1 - cx * cx - cy * cy)
    return np.array([[a, 0, 0], [b * math.cos(ga), b * math.sin(ga), 0], [c * cx, c * cy, c * cz]])


def random_rotation(g):
    q, _ = np.linalg.qr(g.normal(size=(3, 3)))
    if np.linalg.det(q) < 0:
        q[0] = -q[0]
    return q


def random_cell(g):
    while True:
        c = g.uniform(-3, 3, size=(3, 3))
        if abs(np.linalg.det(c)) > 3:
            return c


def niggli(cell, eps=1e-9):
    """Krivy-Gruber; returns a reduced cell of the same lattice and handedness."""
    cell = np.array(cell, dtype=float)
    for _ in range(500):
        A, Bq, C = (cell[i] @ cell[i] for i in range(3))
        xi, eta, zeta = 2 * cell[1] @ cell[2], 2 * cell[0] @ cell[2], 2 * cell[0] @ cell[1]
        if A > Bq + eps or (abs(A - Bq) <= eps and abs(xi) > abs(eta) + eps):
            cell = -cell[[1, 0, 2]]
            continue
        if Bq > C + eps or (abs(Bq - C) <= eps and abs(eta) > abs(zeta) + eps):
            cell = -cell[[0, 2, 1]]
            continue
        s = [(-1 if x < -eps else (1 if x > eps else 0)) for x in (xi, eta, zeta)]
        if s[0] * s[1] * s[2] > 0:
            sg = [-1 if x == -1 else 1 for x in s]
            cell = np.array([sg[0] * cell[0], sg[1] * cell[1], sg[2] * cell[2]])
        else:
            sg = [-1 if x == 1 else 1 for x in s]
            if sg[0] * sg[1] * sg[2] < 0:
                for i in range(3):
                    if s[i] == 0:
                        sg[i] = -1
                        break
            cell = np.array([sg[0] * cell[0], sg[1] * cell[1], sg[2] * cell[2]])
        A, Bq, C = (cell[i] @ cell[i] for i in range(3))
        xi, eta, zeta = 2 * cell[1] @ cell[2], 2 * cell[0] @ cell[2], 2 * cell[0] @ cell[1]
        if abs(xi) > Bq + eps or (abs(xi - Bq) <= eps and 2 * eta < zeta - eps) or (abs(xi + Bq) <= eps and zeta < -eps):
            cell = np.array([cell[0], cell[1], cell[2] - np.sign(xi) * cell[1]])
            continue
        if abs(eta) > A + eps or (abs(eta - A) <= eps and 2 * xi < zeta - eps) or (abs(eta + A) <= eps and zeta < -eps):
            cell = np.array([cell[0], cell[1], cell[2] - np.sign(eta) * cell[0]])
            continue
        if abs(zeta) > A + eps or (abs(zeta - A) <= eps and 2 * xi < eta - eps) or (abs(zeta + A) <= eps and eta < -eps):
            cell = np.array([cell[0], cell[1] - np.sign(zeta) * cell[0], cell[2]])
            continue
        t = xi + eta + zeta + A + Bq
        if t < -eps or (abs(t) <= eps and 2 * (A + eta) + zeta > eps):
            cell = np.array([cell[0], cell[1], cell[0] + cell[1] + cell[2]])
            continue
        return cell
    return cell


# --------------------------------------------------------------------------- sample cells of the crystal families
def std_cell(g, family, centring, order=None, shape=None):
    """Conventional cell of the family in a random orientation, in the setting used by spglib:
    hexagonal axes with gamma = 120, monoclinic with unique axis b and beta > 90."""
    R = random_rotation(g)
    if family == "c":
        a = g.uniform(2, 9)
        c = np.eye(3) * a
    elif family == "t":
        a, cc = _two(g, order)
        c = np.diag([a, a, cc])
    elif family == "h":
        a, cc = _two(g, order)
        c = from_params(a, a, cc, 90, 90, 120)
    elif family == "o":
        ls = np.sort(g.uniform(2, 9, size=3)) * np.array([1.0, 1.1, 1.25])
        p = order if order is not None else tuple(g.permutation(3))
        c = np.diag([ls[p[0]], ls[p[1]], ls[p[2]]])
    elif family == "m":
        a, b, cc = g.uniform(2, 9, size=3)
        be = g.uniform(95, 130)
        c = from_params(a, b, cc, 90, be, 90)
    else:
        c = random_cell(g)
        if np.linalg.det(c) < 0:
            c = -c
        return c
    return c @ R


def _two(g, order):
    a, c = sorted(g.uniform(2, 9, size=2))
    c = c * 1.15
    return (a, c) if order in (None, 0) else (c, a)


CENTRING_VECTORS = {
    "P": [],
    "A": [(0, .5, .5)],
    "B": [(.5, 0, .5)],
    "C": [(.5, .5, 0)],
    "I": [(.5, .5, .5)],
    "F": [(0, .5, .5), (.5, 0, .5), (.5, .5, 0)],
    "R": [(2 / 3, 1 / 3, 1 / 3), (1 / 3, 2 / 3, 2 / 3)],
}


def is_lattice_vector(v, centring, tol=1e-7):
    """v: relative coordinates in the conventional cell."""
    v = np.asarray(v, dtype=float)
    for t in [(0, 0, 0)] + CENTRING_VECTORS[centring]:
        d = v - np.array(t)
        if np.all(np.abs(d - np.round(d)) < tol):
            return True
    return False


LATTICE_TYPES = [("c", "P"), ("c", "I"), ("c", "F"), ("t", "P"), ("t", "I"), ("o", "P"), ("o", "I"), ("o", "F"), ("o", "C"), ("o", "A"),
                 ("h", "P"), ("h", "R"), ("m", "P"), ("m", "C"), ("a", "P")]


# --------------------------------------------------------------------------- space groups (International Tables, vol. A)
def ita_family(n):
    for hi, f in ((2, "a"), (15, "m"), (74, "o"), (142, "t"), (194, "h"), (230, "c")):
        if n <= hi:
            return f


def ita_inversion(n):
    """Centrosymmetric space groups."""
    rs = [(2, 2), (10, 15), (47, 74), (83, 88), (123, 142), (147, 148), (162, 167), (175, 176), (191, 194), (200, 206), (221, 230)]
    return any(a <= n <= b for a, b in rs)


_HM = {
    "C": [5, 8, 9, 12, 15, 20, 21, 35, 36, 37, 63, 64, 65, 66, 67, 68],
    "A": [38, 39, 40, 41],
    "I": [23, 24, 44, 45, 46, 71, 72, 73, 74, 79, 80, 82, 87, 88, 97, 98, 107, 108, 109, 110, 119, 120, 121, 122, 139, 140, 141, 142,
          197, 199, 204, 206, 211, 214, 217, 220, 229, 230],
    "F": [22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219, 225, 226, 227, 228],
    "R": [146, 148, 155, 160, 161, 166, 167],
}


def ita_centring(n):
    for k, v in _HM.items():
        if n in v:
            return k
    return "P"


REPRESENTATIVE = {}
for _n in range(1, 231):
    REPRESENTATIVE.setdefault((ita_family(_n), ita_centring(_n)), []).append(_n)
