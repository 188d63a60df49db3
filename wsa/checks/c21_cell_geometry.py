"""Geometry of cells: reciprocal cell, parameters, volume, angles, spherical coordinates.

The value graph of each function is compared with an independent definition by
value numbering, for arrays and nested lists, including the regions (parallel
vectors, poles, half-planes) which the branches of the code distinguish.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Violation, fun_loc
from ..interp import State
from .calls import cell, sym, vec

LEVEL = "other"
FLOOR = 30
ASSUMPTIONS = ["cells are not degenerate; floating point error within 1e-7"]
PN = ("a", "b", "c", "alpha", "beta", "gamma")
CELL, GEO = "wulfric.cell.", "wulfric.geometry."


def check(ctx):
    it = ctx.interp("plain")
    for f in ("array", "list"):
        ctx.ob(f"get_reciprocal ({f})", one_cell, ctx, it, f, CELL + "get_reciprocal", lambda c: 2 * np.pi * np.linalg.inv(c).T)
        ctx.ob(f"get_params ({f})", one_cell, ctx, it, f, CELL + "get_params", lambda c: np.array(oracle.params(c)))
        ctx.ob(f"get_scalar_products ({f})", one_cell, ctx, it, f, CELL + "get_scalar_products", lambda c: np.array([c[1] @ c[2], c[0] @ c[2], c[0] @ c[1]]))
        ctx.ob(f"get_volume of a cell ({f})", one_cell, ctx, it, f, GEO + "get_volume", lambda c: np.array(abs(np.linalg.det(c))))
        ctx.ob(f"get_volume of vectors ({f})", volume3, ctx, it, f)
        for g in ("array", "list"):
            ctx.ob(f"get_transformation_matrix ({f}, {g})", transformation, ctx, it, f, g)
        for rad in (None, False, True):
            ctx.ob(f"get_angle ({f}, radians {rad})", angle, ctx, it, f, rad)
        ctx.ob(f"get_angle of a zero vector ({f})", angle0, ctx, it, f)
        for deg in (None, False, True):
            for axes in (False, True):
                ctx.ob(f"get_spherical ({f}, in_degrees {deg}, {'given' if axes else 'default'} axes)", spherical, ctx, it, f, deg, axes)
    ctx.ob("get_volume of parameters", volume6, ctx, it)
    for n in (0, 2, 4, 5, 7):
        ctx.ob(f"get_volume of {n} arguments", volume_bad, ctx, it, n)
    for given in ((), PN, ("a", "gamma"), ("b", "alpha", "beta"), ("c",)):
        ctx.ob(f"from_params({', '.join(given)})", from_params, ctx, it, given)


def cellenv(env, name, m):
    m = np.asarray(m)
    env[name] = m
    for i in range(m.shape[0]):
        if m.ndim == 1:
            env[f"{name}[{i}]"] = float(m[i])
        else:
            for j in range(m.shape[1]):
                env[f"{name}[{i}][{j}]"] = float(m[i, j])


def run(it, fn, build):
    st = State()
    a, kw = build(st)
    r = it.run(fn, a, kw, st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
    if r.st.pc == 0:
        raise Violation(f"valid arguments raise {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    return r, loc


def at(r, env, fn, loc):
    x = rint.raised(r, env)
    if x is not None:
        raise Violation(f"{fn.split('.')[-1]} raises {rint.cls_name(x.cls)} for valid arguments", x.loc, "raises at point")
    return np.asarray(rint.val(r, r.value, env), dtype=float)


def differs(got, want, what, r, loc, tol=1e-7):
    s = np.max(np.abs(want), initial=0) or 1.0
    if got.shape != np.shape(want) or not rint.close(got, want, tol) or not rint.close(got / s, np.asarray(want) / s, tol):
        raise Violation(f"{what} is {np.round(got, 6).tolist()}, {np.round(want, 6).tolist()} expected", loc, "value")


def cells(ctx, *key):
    g = oracle.rng(ctx.seed, *key)
    for i in range(8 if not ctx.thorough else 40):
        c = oracle.random_cell(g)
        if i in (3, 4):      # other units of length (metres, picometres)
            c = c * (1e-10 if i == 3 else 100.0)
        if i in (5, 6):      # long and flat cells
            c = np.diag([1, 1, 4000.0]) @ c if i == 5 else np.diag([2500.0, 2000.0, 1]) @ c
        if i in (2, 7):      # needles and sheets
            c = np.diag([1, 1, 5e5]) @ c if i == 2 else np.diag([1, 1, 2e-5]) @ c
        yield g, c if i % 2 else c[[1, 0, 2]]      # both handednesses


def one_cell(ctx, it, f, fn, want):
    r, loc = run(it, fn, lambda st: ([cell(it, st, f)], {}))
    for g, c in cells(ctx, fn, f):
        env = {}
        cellenv(env, "cell", c)
        differs(at(r, env, fn, loc), want(c), f"{fn.split('.')[-1]} of {np.round(c, 3).tolist()}", r, loc)
        ctx.count("points")


def volume3(ctx, it, f):
    fn = GEO + "get_volume"
    r, loc = run(it, fn, lambda st: ([vec(it, st, f, x) for x in "abc"], {}))
    for g, c in cells(ctx, "v3", f):
        env = {}
        for x, v in zip("abc", c):
            cellenv(env, x, v)
        differs(at(r, env, fn, loc), abs(np.linalg.det(c)), f"volume of the vectors {np.round(c, 3).tolist()}", r, loc)


def volume6(ctx, it):
    fn = GEO + "get_volume"
    r, loc = run(it, fn, lambda st: ([sym(x) for x in PN], {}))
    for g, c in cells(ctx, "v6"):
        env = dict(zip(PN, oracle.params(c)))
        differs(at(r, env, fn, loc), abs(np.linalg.det(c)), f"volume of the parameters {np.round(list(env.values()), 3).tolist()}", r, loc)


def volume_bad(ctx, it, n):
    st = State()
    r = it.run(GEO + "get_volume", [sym(f"x{i}") for i in range(n)], {}, st=st)
    if rint.returned(r):
        raise Violation(f"get_volume accepts {n} arguments", r.exits[-1].loc, "count accepted")
    if any(rint.cls_name(q.cls) != "ValueError" for q in rint.sure(r)):
        raise Violation(f"get_volume raises {rint.cls_name(r.raises[-1].cls)} for {n} arguments", r.raises[-1].loc, "count class")


def transformation(ctx, it, f, h):
    fn = CELL + "get_transformation_matrix"
    r, loc = run(it, fn, lambda st: ([cell(it, st, f, "c1"), cell(it, st, h, "c2")], {}))
    for g, c in cells(ctx, "tm", f, h):
        d = oracle.random_cell(g)
        if abs(np.linalg.det(c)) > 1e3:
            d = d * 1e-9
        env = {}
        cellenv(env, "c1", c)
        cellenv(env, "c2", d)
        p = at(r, env, fn, loc)
        if p.shape != (3, 3) or not rint.close(p.T @ c / np.max(np.abs(d)), d / np.max(np.abs(d))):
            raise Violation("transposed transformation matrix times the original cell is not the transformed cell", loc, "transformation")


def angle(ctx, it, f, rad):
    fn = GEO + "get_angle"
    r, loc = run(it, fn, lambda st: ([vec(it, st, f, "v1"), vec(it, st, f, "v2")], {} if rad is None else dict(radians=rad)))
    k = 1 if rad else 180 / np.pi
    for i, (g, c) in enumerate(cells(ctx, "angle", f)):
        c = c / max(1.0, np.abs(c).max() / 5) if np.abs(c).max() > 1e-6 else c * 1e10
        u, v = c[0], c[1] * 10.0 ** g.integers(-3, 3)
        # three vectors with the unit dot product above one because of rounding are among the parallel ones
        pairs = [(u, v, np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v))), (u, -v, np.pi - np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v)))]
        for a, b in ((1e-10, 1e-10), (1e-10, 1e8), (1e9, 1e9)):
            pairs.append((u * a, c[1] * b, pairs[0][2]))
        for _ in range(12):
            w = g.normal(size=3)
            pairs += [(w, 3 * w, 0.0), (w, -7 * w, np.pi)]
        for x, y, want in pairs:
            env = {}
            cellenv(env, "v1", x)
            cellenv(env, "v2", y)
            got = at(r, env, fn, loc)
            if got.shape != () or not np.isfinite(got) or abs(got - want * k) > 1e-4:
                raise Violation(f"angle between {x.tolist()} and {y.tolist()} is {got}, {want * k} expected", loc, "angle")
            ctx.count("points")


def angle0(ctx, it, f):
    fn = GEO + "get_angle"
    r, loc = run(it, fn, lambda st: ([vec(it, st, f, "v1"), vec(it, st, f, "v2")], {}))
    for x, y in ((np.zeros(3), np.ones(3)), (np.ones(3), np.zeros(3)), (np.zeros(3), np.zeros(3))):
        env = {}
        cellenv(env, "v1", x)
        cellenv(env, "v2", y)
        e = rint.raised(r, env, strict=True)
        if e is None:
            raise Violation("angle with a zero vector is accepted", loc, "zero vector")
        if rint.cls_name(e.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(e.cls)} for a zero vector", e.loc, "zero vector class")


def spherical(ctx, it, f, deg, axes):
    fn = GEO + "get_spherical"

    def build(st):
        kw = {} if deg is None else dict(in_degrees=deg)
        if axes:
            kw.update(polar_axis=vec(it, st, f, "pa"), radial_line_zero=vec(it, st, f, "rl"))
        return [vec(it, st, f, "v")], kw
    r, loc = run(it, fn, build)
    k = 1 if deg is False else np.pi / 180
    for g, c in cells(ctx, "sph", f, deg, axes):
        R = oracle.random_rotation(g) if axes else np.eye(3)
        x, y, z = R
        for t in (None, 0, 1, 2, 3, "pole", "south", "near", "under", "seam"):
            if t is None:
                v = g.normal(size=3) * 10.0 ** g.integers(-2, 3)
            elif t in ("pole", "south"):
                v = z * (2.5 if t == "pole" else -0.7)
            elif t in ("near", "under", "seam"):
                # close to (not at) a pole; just below the half-plane of zero azimuth
                p0, a0 = {"near": 5e-4, "under": np.pi - 4e-4, "seam": g.uniform(0.4, 2.6)}[t], -3e-3 if t == "seam" else g.uniform(0.5, 5.5)
                v = 2.0 * (np.sin(p0) * (np.cos(a0) * x + np.sin(a0) * y) + np.cos(p0) * z)
            else:
                v = (x, y, -x, -y)[t] * 3 + z * g.normal()
            env = {}
            cellenv(env, "v", v)
            cellenv(env, "pa", z * 1.7)
            cellenv(env, "rl", x * 0.3)
            got = at(r, env, fn, loc)
            if got.shape != (3,):
                raise Violation(f"three numbers expected, {got.tolist()} returned", loc, "shape")
            rr, p, a = got[0], got[1] * k, got[2] * k
            back = rr * (np.sin(p) * (np.cos(a) * x + np.sin(a) * y) + np.cos(p) * z)
            if not rint.close(back, v, 1e-6 if t in ("near", "under", "seam") else 1e-5) or not -1e-9 <= p <= np.pi + 1e-6 or not -1e-9 <= a <= 2 * np.pi + 1e-6:
                raise Violation(f"spherical coordinates {got.tolist()} do not describe the vector {v.tolist()} (axes {z.tolist()}, {x.tolist()})", loc, "spherical")
            if t in ("pole", "south") and abs(a - (0 if t == "pole" else np.pi)) > 1e-6:
                raise Violation(f"azimuthal angle at the {'north' if t == 'pole' else 'south'} pole is {got[2]}", loc, "pole")
            ctx.count("points")


def from_params(ctx, it, given):
    fn = CELL + "from_params"
    r, loc = run(it, fn, lambda st: ([], {x: sym(x) for x in given}))
    g = oracle.rng(ctx.seed, "fp", str(given))
    default = dict(a=1.0, b=1.0, c=1.0, alpha=90.0, beta=90.0, gamma=90.0)
    for i in range(20):
        env = dict(default)
        p = dict(zip(PN, oracle.params(oracle.random_cell(g))))
        env.update({x: p[x] for x in given})
        c3 = [np.cos(np.radians(env[x])) for x in PN[3:]]
        if 1 + 2 * c3[0] * c3[1] * c3[2] - sum(x * x for x in c3) < 1e-3:
            continue
        right = [x for x in PN[3:] if x in given and g.integers(2)]
        if i % 3 == 0:      # right angles given explicitly are exact
            env.update({x: 90.0 for x in right})
            c3 = [np.cos(np.radians(env[x])) for x in PN[3:]]
            if 1 + 2 * c3[0] * c3[1] * c3[2] - sum(x * x for x in c3) < 1e-3:
                continue
        got = at(r, env, fn, loc)
        if got.shape == (3, 3) and any(env[x] == 90.0 and abs(oracle.params(got)[3 + k] - 90) > 1e-9 for k, x in enumerate(PN[3:])):
            raise Violation(f"angles of the cell made from {[round(env[x], 4) for x in PN]} are not right: {oracle.params(got)[3:]}", loc, "right angles")
        if got.shape != (3, 3) or not rint.close(oracle.params(got), [env[x] for x in PN]):
            raise Violation(f"cell made from the parameters {[round(env[x], 4) for x in PN]} has the parameters {np.round(oracle.params(got), 4).tolist()}", loc, "from_params")
        if not (rint.close(got[0, 1:], [0, 0]) and rint.close(got[1, 2], 0) and got[1, 1] > 0 and got[2, 2] > 0):
            raise Violation(f"cell {np.round(got, 4).tolist()} is not oriented with a along x and b in the xy plane", loc, "from_params orientation")
        ctx.count("points")
