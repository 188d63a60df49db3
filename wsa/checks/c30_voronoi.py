"""Lattice points, Wigner-Seitz cell and Brillouin zone: right points, faces of the origin only, each edge once.

The value graph of the lattice points is compared with the definition. For the
Voronoi construction SciPy is replaced by a model with chosen ridges (faces of
the origin, of other points, unbounded ones) and symbolic vertices.
"""
import ast
import itertools

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr
from ..interp import Mod, State, Tup
from .calls import cell
from . import kobj

LEVEL = "other"
FLOOR = 20
ASSUMPTIONS = ["SciPy computes the Voronoi decomposition correctly", "the cell is not so skewed that a neighbour of the origin needs a coefficient above 10"]
W = "wulfric.cell."
MODEL = '''
class Voronoi:
    def __init__(self, vertices, ridge_vertices, ridge_points):
        self.vertices = vertices
        self.ridge_vertices = ridge_vertices
        self.ridge_points = ridge_points
'''
# faces: (vertices, is it between the origin and another point)
SHAPES = {
    "tetrahedron": [((0, 1, 2), 1), ((0, 3, 1), 1), ((1, 3, 2), 1), ((2, 3, 0), 1), ((4, 5, 6), 0), ((0, 1, 6), 0), ((-1, 2, 5), 1), ((-1, 3, 6), 0)],
    "cube": [((7, 3, 9, 5), 1), ((4, 6, 8, 2), 1), ((7, 3, 6, 4), 1), ((9, 5, 2, 8), 1), ((3, 9, 8, 6), 1), ((5, 7, 4, 2), 1), ((0, 1, 7), 0), ((10, 11, 0, 1), 0), ((2, 5, 10), 0)],
    "prism, opposite sense": [((2, 1, 0), 1), ((6, 7, 8), 1), ((0, 1, 7, 6), 1), ((1, 2, 8, 7), 1), ((0, 6, 8, 2), 1), ((3, 4, 5), 0), ((-1, 3, 8), 1)],
}


def check(ctx):
    it = ctx.interp("plain")
    for f in ("array", "list"):
        for rng in (None, (1, 1, 1), (0, 0, 0), (2, 1, 0), (0, 3, 1)):
            for kw in ({}, dict(relative=True), dict(relative=False, flat=True), dict(flat=False), dict(relative=True, flat=False)):
                ctx.ob(f"get_lattice_points ({f}, range {rng}, {kw})", lattice, ctx, it, f, rng, kw)
        for fn in ("get_wigner_seitz_cell", "get_brillouin_zone"):
            for s in SHAPES:
                for first in ("first", "second", "mixed"):
                    ctx.ob(f"{fn} ({f}, {s}, origin {first} in the pair)", zone, ctx, f, fn, s, first)
            ctx.ob(f"neighbours of the origin for {fn} ({f})", neighbours, ctx, f, fn)


def setcell(c, e=None):
    e = dict(e or {})
    e["cell"] = c
    for i in range(3):
        for j in range(3):
            e[f"cell[{i}][{j}]"] = float(c[i, j])
    return e


def lattice(ctx, it, f, rng, kw):
    fn = W + "get_lattice_points"
    for form in (Tup, "list") if rng else (None,):
        st = State()
        c = cell(it, st, f)
        k = dict(kw)
        if rng:
            k["range"] = Tup(list(rng)) if form is Tup else it.new_list(st, list(rng))
        r = it.run(fn, [c], k, st=st)
        loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
        if r.st.pc == 0:
            raise Violation(f"valid arguments raise {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
        R = rng or (1, 1, 1)
        axes = [np.arange(-n, n + 1) for n in R]
        rel = np.array(list(itertools.product(*axes)), dtype=float).reshape([2 * n + 1 for n in R] + [3])
        g = oracle.rng(ctx.seed, f, str(rng), str(kw))
        for _ in range(3):
            e = setcell(oracle.random_cell(g))
            if rint.raised(r, e) is not None:
                raise Violation("valid arguments raise", loc, "raises")
            want = rel if kw.get("relative") else rel @ e["cell"]
            flat = kw.get("flat", True)
            if flat:
                want = want.reshape(-1, 3)
            got = np.asarray(rint.val(r, r.value, e), dtype=float)
            if got.shape != want.shape:
                raise Violation(f"lattice points have the shape {got.shape}, {want.shape} expected", loc, "shape")
            if flat:
                got, want = (x[np.lexsort(np.round(x, 6).T)] for x in (got, want))
            if not rint.close(got, want):
                raise Violation("lattice points are not the integer combinations of the vectors within the range", loc, "points")
            ctx.count("points")


def analyse(ctx, f, fn, shape, first):
    it = ctx.interp(f"voronoi {f} {fn} {shape} {first}")
    it.assume_available = True
    it.modules["wsa_voronoi"] = Mod("wsa_voronoi", ast.parse(MODEL), "model of SciPy", False)
    cls = it.load("wsa_voronoi").env["Voronoi"]
    seen = []

    def stub(i, st, a, k):
        pts = (list(a) + [v for x, v in k.items() if x == "points"])[0]
        t = i.to_array_T(st, pts)
        seen.append(t)
        c = np.array([[1.0, 0.1, 0.2], [0.0, 1.1, -0.3], [0.1, 0.2, 0.9]])
        try:
            v = np.asarray(tm.evaluate(t, setcell(c)))
        except tm.Unevaluable as x:
            raise Undecided(f"points of the Voronoi decomposition are not closed-form: {x}")
        o = np.flatnonzero(np.abs(v).max(axis=1) < 1e-9)
        if len(o) != 1:
            raise Violation(f"the points of the Voronoi decomposition contain the origin {len(o)} times", i.loc, "origin")
        o = int(o[0])
        other = [j for j in range(len(v)) if j != o]
        faces = SHAPES[shape]
        rp = []
        for n, (_, own) in enumerate(faces):
            x = other[(7 * n + 3) % len(other)]
            rp.append(([o, x] if first == "first" or (first == "mixed" and n % 2) else [x, o]) if own else [x, other[(7 * n + 11) % len(other)]])
        rv = i.new_list(st, [i.new_list(st, list(q)) for q, _ in faces])
        return i.call(st, cls, [sarr(i, st, "V", (12, 3)), rv, i.new_array(st, tm.arr((len(rp), 2), [y for x in rp for y in x]))], {})
    it.ext_stubs["scipy.spatial.Voronoi"] = stub
    st = State()
    r = it.run(W + fn, [cell(it, st, f)], {}, st=st)
    if not seen:
        raise Undecided("SciPy's Voronoi decomposition is not used")
    if r.st.pc == 0:
        raise Violation(f"valid arguments raise {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    return it, r, seen


def zone(ctx, f, fn, shape, first):
    it, r, seen = analyse(ctx, f, fn, shape, first)
    loc = fun_loc(it.public(W + fn))
    g = oracle.rng(ctx.seed, f, fn, shape, first)
    want = set()
    for q, own in SHAPES[shape]:
        if own and -1 not in q:
            want |= {frozenset((q[i - 1], q[i])) for i in range(len(q))}
    used = sorted(set().union(*want))
    e = setcell(oracle.random_cell(g), dict(V=g.uniform(-1, 1, (12, 3))))
    v = it.known_items(r.st, r.value)
    if v is None or len(v) != 2:
        raise Undecided("returned value is not a pair")
    try:
        ver, ed = (np.asarray(rint.val(r, x, e)) for x in v)
    except Undecided as x:
        if "IndexError" in str(x):
            raise Violation("no face belongs to the origin: the vertices are selected by an empty array", loc, "no faces")
        raise
    if ver.shape != (len(used), 3) or not rint.close(ver[np.lexsort(np.round(ver, 6).T)], (lambda x: x[np.lexsort(np.round(x, 6).T)])(e["V"][used])):
        raise Violation(f"{len(ver)} vertices are returned; exactly the {len(used)} vertices of bounded faces of the origin are expected", loc, "vertices")
    if ed.ndim != 2 or ed.shape[1] != 2 or ed.dtype.kind not in "iu" or ed.min() < 0 or ed.max() >= len(ver):
        raise Violation("edges are not pairs of indices of the vertices", loc, "edges")
    back = [int(np.argmin(np.abs(e["V"] - x).max(axis=1))) for x in ver]
    got = [frozenset((back[a], back[b])) for a, b in ed]
    if len(got) != len(set(got)):
        raise Violation("an edge is returned twice", loc, "repeated edge")
    if set(got) != want:
        raise Violation(f"edges {sorted(map(sorted, set(got) - want))[:3]} are not edges of bounded faces of the origin, {sorted(map(sorted, want - set(got)))[:3]} are missing", loc, "wrong edges")
    ctx.count("points")


def relevant(c, n=3):
    """Voronoi-relevant vectors of the lattice of the (well reduced) cell, integer coefficients."""
    x = np.array(list(itertools.product(range(-n, n + 1), repeat=3)))
    d = np.linalg.norm(x @ c, axis=1)
    out = []
    for p in itertools.product((0, 1), repeat=3):
        if p == (0, 0, 0):
            continue
        m = np.all((x - p) % 2 == 0, axis=1)
        k = d[m].min()
        b = x[m][d[m] < k * (1 + 1e-9)]
        if len(b) == 2:
            out += list(b)
    return np.array(out)


def neighbours(ctx, f, fn):
    it, r, seen = analyse(ctx, f, fn, "tetrahedron", "first")
    loc = fun_loc(it.public(W + fn))
    g = oracle.rng(ctx.seed, f, fn, "near")
    for _ in range(30 if ctx.thorough else 8):
        red = np.eye(3) + g.uniform(-0.2, 0.2, (3, 3))
        U = np.eye(3)
        while True:
            i, j = g.permutation(3)[:2]
            E = np.eye(3)
            E[i, j] = g.choice([-3, -2, -1, 1, 2, 3])
            N = E @ U
            if np.abs(relevant(red) @ np.linalg.inv(N)).max() > 10.5:
                break
            U = N
        c = U @ red
        rel = np.round(relevant(red) @ np.linalg.inv(U))
        assert np.allclose(rel @ c, relevant(red) @ red)
        lat = c
        given = lat if fn == "get_wigner_seitz_cell" else 2 * np.pi * np.linalg.inv(lat).T
        e = setcell(given)
        for t in seen:
            pts = np.asarray(tm.evaluate(t, e), dtype=float)
            ix = pts @ np.linalg.inv(lat)
            if not rint.close(ix, np.round(ix), 1e-6):
                raise Violation("the Voronoi decomposition is made for points of another lattice", loc, "lattice")
            have = {tuple(x) for x in np.round(ix).astype(int)}
            miss = [tuple(x) for x in rel.astype(int) if tuple(x) not in have]
            if miss:
                raise Violation(f"the neighbour {miss[0]} (in the basis of the cell) of the origin does not take part in the Voronoi decomposition", loc, "neighbours")
            if len(have) != len(pts):
                raise Violation("points of the Voronoi decomposition are repeated", loc, "repeated points")
        ctx.count("points")
