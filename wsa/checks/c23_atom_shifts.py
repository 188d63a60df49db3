"""Vectors and distances between atoms, rigid shifts, reduction to the (0,0,0) cell.

The positions left in the atoms after the analysed call and the returned vectors
are compared with their definition; rigidity (all atoms moved by one vector) and
integrality of the reduction are decided on every sign pattern of coordinates.
"""
import itertools

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import State, Tup
from .calls import atoms, cell, vec

LEVEL = "other"
FLOOR = 40
P = "wulfric.crystal."
FORMS = ("array", "list", "arrays")


def check(ctx):
    it = ctx.interp("plain")
    for f in FORMS:
        for R in (None, "array", "list", "tuple"):
            for rel in (None, False, True):
                ctx.ob(f"get_vector ({f}, R {R}, return_relative {rel})", vector, ctx, it, f, R, rel)
            ctx.ob(f"get_distance ({f}, R {R})", vector, ctx, it, f, R, "distance")
        for n in (1, 2, 3, 4):
            for gp in (None, "array", "list", "tuple"):
                ctx.ob(f"shift_atoms ({f}, {n} atoms, gravity point {gp})", shift, ctx, it, f, n, gp, False)
                if gp:
                    ctx.ob(f"shift_atoms ({f}, {n} atoms, Cartesian gravity point {gp})", shift, ctx, it, f, n, gp, True)
            ctx.ob(f"cure_negative ({f}, {n} atoms)", cure, ctx, it, f, n)
            ctx.ob(f"ensure_000 ({f}, {n} atoms)", ensure, ctx, it, f, n)
        n = 12
        ctx.ob(f"shift_atoms ({f}, {n} atoms)", shift, ctx, it, f, n, None, False)
        ctx.ob(f"shift_atoms ({f}, {n} atoms, Cartesian gravity point)", shift, ctx, it, f, n, "array", True)
        ctx.ob(f"cure_negative ({f}, {n} atoms)", cure, ctx, it, f, n)
        ctx.ob(f"ensure_000 ({f}, {n} atoms)", ensure, ctx, it, f, n)
        for n in (1, 2, 4):
            ctx.ob(f"shift_atoms without cell ({f}, {n} atoms)", nocell, ctx, it, f, n)


def setpos(env, p, name="atoms.positions"):
    env[name] = np.array(p, dtype=float)
    for i, q in enumerate(p):
        env[f"{name}[{i}]"] = np.array(q, dtype=float)
        for j, x in enumerate(q):
            env[f"{name}[{i}][{j}]"] = float(x)


def setvec(env, name, v):
    env[name] = np.asarray(v, dtype=float)
    for i, x in enumerate(v):
        env[f"{name}[{i}]"] = float(x)


def given(it, st, form, name):
    if form == "tuple":
        return Tup([tm.sym(f"{name}[{i}]", "float") for i in range(3)])
    return vec(it, st, form, name)


def start(it, f, n, fn, kw):
    """Runs fn(atoms, **kw(st)); returns result, positions afterwards, location."""
    st = State()
    a = atoms(it, st, f, ("names", "mykey"), n=n)
    r = it.run(P + fn, [a], kw(st), st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(P + fn))
    if r.st.pc == 0:
        raise Violation(f"{fn} raises {rint.cls_name(r.raises[-1].cls)} for valid atoms", r.raises[-1].loc, f"{fn} raises")
    return r, a, loc


def after(it, r, a, env, n, fn, loc):
    x = rint.raised(r, env)
    if x is not None:
        raise Violation(f"{fn} raises {rint.cls_name(x.cls)} for valid atoms", x.loc, f"{fn} raises at point")
    d = rint.val(r, a, env)
    if list(d) != ["positions", "names", "mykey"] or list(d["names"]) != [f"n{i}" for i in range(n)] or list(d["mykey"]) != [f"m{i}" for i in range(n)]:
        raise Violation(f"{fn} changes other keys of atoms", loc, f"{fn} other keys")
    try:
        p = np.array([np.asarray(q, dtype=float) for q in d["positions"]], dtype=float)
    except Exception:
        p = np.zeros(0)
    if p.shape != (n, 3):
        raise Violation(f"positions after {fn} have the shape {p.shape}", loc, f"{fn} shape")
    return p


def base(g, n):
    env = {f"atoms.names[{i}]": f"n{i}" for i in range(n)}
    env.update({f"atoms.mykey[{i}]": f"m{i}" for i in range(n)})
    return env


def configurations(ctx, n, *key):
    """Positions: every sign pattern of the extreme coordinates, coordinates beyond the cell, zeros."""
    g = oracle.rng(ctx.seed, n, *key)
    for s in itertools.product((-1, 0, 1), repeat=3):
        p = g.uniform(0.05, 0.95, size=(n, 3))
        i = int(g.integers(n))
        for j in range(3):
            if s[j] < 0:
                p[i, j] -= g.integers(1, 4)
            elif s[j] == 0:
                p[i, j] = 0
            else:
                p[i, j] += g.integers(0, 3)
        yield g, p
    for v in (1.0, -1.0, 2.0, -3.0, 0.0, -1e-13, -1e-9, -1e-6, -3e-5, 1 - 1e-9, -1 - 1e-7, 25.25, -117.5):
        p = g.uniform(0.05, 0.95, size=(n, 3))
        p[int(g.integers(n)), int(g.integers(3))] = v
        yield g, p
    yield g, g.uniform(-3, -1, size=(n, 3))
    yield g, g.uniform(1, 3, size=(n, 3))


def vector(ctx, it, f, R, rel):
    fn = P + ("get_distance" if rel == "distance" else "get_vector")
    g = oracle.rng(ctx.seed, f, R, str(rel))
    for i, j in ((0, 1), (1, 0), (2, 0), (1, 1)):
        for cf in ("array", "list"):
            st = State()
            kw = {} if R is None else dict(R=given(it, st, R, "R"))
            if rel in (True, False):
                kw["return_relative"] = rel
            r = it.run(fn, [cell(it, st, cf), atoms(it, st, f), i, j], kw, st=st)
            loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
            if r.st.pc == 0:
                raise Violation(f"valid arguments raise {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
            for k in range(3):
                env = {f"atoms.names[{x}]": f"n{x}" for x in range(3)}
                p = g.uniform(-1, 2, size=(3, 3))
                setpos(env, p)
                rr = g.integers(-3, 4, size=3) if R else np.zeros(3)
                setvec(env, "R", rr)
                c = oracle.random_cell(g)
                env["cell"] = c
                for a in range(3):
                    for b in range(3):
                        env[f"cell[{a}][{b}]"] = c[a, b]
                want = p[j] + rr - p[i]
                if rel is not True:
                    want = want @ c
                if rel == "distance":
                    want = np.array(np.linalg.norm(want))
                got = np.asarray(rint.val(r, r.value, env), dtype=float)
                ctx.count("points")
                if got.shape != want.shape or not rint.close(got, want):
                    raise Violation(f"{fn.split('.')[-1]} from the atom {i} to the atom {j} in the cell R = {rr.tolist()} is {np.round(got, 5).tolist()}, {np.round(want, 5).tolist()} expected", loc, "vector")


def rigid(p, q, fn, loc):
    d = q - p
    if not rint.close(d, np.repeat(d[:1], len(d), axis=0)):
        raise Violation(f"{fn} moves atoms by different vectors: {np.round(d, 5).tolist()}", loc, f"{fn} rigid")
    return d[0]


def shift(ctx, it, f, n, gp, cart):
    def kw(st):
        k = {} if gp is None else dict(gravity_point=given(it, st, gp, "gp"))
        if cart:
            k.update(cell=cell(it, st, "array"), gp_is_relative=False)
        return k
    r, a, loc = start(it, f, n, "shift_atoms", kw)
    for g, p in configurations(ctx, n, "shift", f, gp, cart):
        env = base(g, n)
        setpos(env, p)
        x = g.uniform(-2, 2, size=3) if gp else np.array([.5, .5, .5])
        c = oracle.random_cell(g)
        env["cell"] = c
        setvec(env, "gp", x @ c if cart else x)
        q = after(it, r, a, env, n, "shift_atoms", loc)
        rigid(p, q, "shift_atoms", loc)
        m = (q.min(axis=0) + q.max(axis=0)) / 2
        ctx.count("points")
        if not rint.close(m, x):
            raise Violation(f"middle of the extreme coordinates is {m.tolist()}, gravity point {x.tolist()}", loc, "shift_atoms middle")


def nocell(ctx, it, f, n):
    st = State()
    a = atoms(it, st, f, ("names",), n=n)
    before = it.as_T(st, a)
    r = it.run(P + "shift_atoms", [a], dict(gp_is_relative=False), st=st)
    if rint.returned(r):
        raise Violation("Cartesian gravity point is accepted without a cell", r.exits[-1].loc, "no cell accepted")
    x = r.raises[-1]
    if rint.cls_name(x.cls) != "ValueError":
        raise Violation(f"{rint.cls_name(x.cls)} for a missing cell", x.loc, "no cell class")
    if x.heap is not None and it.as_T(State(heap=dict(x.heap)), a) is not before:
        raise Violation("atoms are changed before the missing cell is noticed", x.loc, "no cell changed")


def cure(ctx, it, f, n):
    r, a, loc = start(it, f, n, "cure_negative", lambda st: {})
    for g, p in configurations(ctx, n, "cure", f):
        env = base(g, n)
        setpos(env, p)
        q = after(it, r, a, env, n, "cure_negative", loc)
        d = rigid(p, q, "cure_negative", loc)
        want = np.maximum(-p.min(axis=0), 0)
        ctx.count("points")
        if q.min() < -1e-15:
            raise Violation(f"coordinates {p.tolist()} become {q.tolist()}: still negative", loc, "cure_negative range")
        if not rint.close(d, want):
            raise Violation(f"atoms with the smallest coordinates {np.round(p.min(axis=0), 4).tolist()} are shifted by {np.round(d, 4).tolist()}, {np.round(want, 4).tolist()} expected", loc, "cure_negative shift")


def ensure(ctx, it, f, n):
    r, a, loc = start(it, f, n, "ensure_000", lambda st: {})
    for g, p in configurations(ctx, n, "ensure", f):
        env = base(g, n)
        setpos(env, p)
        q = after(it, r, a, env, n, "ensure_000", loc)
        ctx.count("points")
        if np.any(q < 0) or np.any(q > 1):
            raise Violation(f"coordinates {p.tolist()} become {q.tolist()}: not in [0, 1]", loc, "ensure_000 range")
        if not rint.close(q - p, np.round(q - p)):
            raise Violation(f"coordinates {p.tolist()} become {q.tolist()}: moved by a vector which is not a lattice vector", loc, "ensure_000 lattice")
        inside = (p >= 0) & (p < 1)
        if not rint.close(q[inside], p[inside]):
            raise Violation("coordinates inside of the cell are changed", loc, "ensure_000 inside")
