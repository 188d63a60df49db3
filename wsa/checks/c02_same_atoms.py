"""Atoms of the conventional/primitive cell stand where the atoms of the crystal stand.

The value graph of the returned positions (and of the returned cell) is
extracted per lattice type, convention and function; at random crystals
consistent with the centring, the Cartesian position of every returned atom
must be the position of an atom of the same type of the standard crystal,
modulo a lattice vector, every atom of the crystal must be represented, and a
primitive cell must hold exactly one representative of each.  The loop that
drops equivalent atoms is decided over every partition of the atoms into
classes of equivalent ones.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from .common import Tup, crystal_env, crystal_interp, ctypes_of, run_crystal, variants

LEVEL = "other"
FLOOR = 80
ASSUMPTIONS = ["positions of distinct atoms differ by more than the distance tolerance"]


MANY = (("c", "P"), ("o", "I"), ("c", "F"))


def check(ctx):
    it = crystal_interp(ctx)
    for conv in ("hpkot", "SC", "spglib"):
        for fam, cen in oracle.LATTICE_TYPES:
            k = 1 + len(oracle.CENTRING_VECTORS[cen])
            for ptypes in ([2, 1], [1, 1, 2]):
                ident = tuple(range(k * len(ptypes)))
                perms = [ident]
                if (fam, cen) in MANY and conv == "hpkot" and ptypes == [2, 1]:
                    big = [2, 1, 1, 2, 2, 1, 2, 1]
                    for fn in ("get_conventional", "get_primitive"):
                        ctx.ob(f"{fn} {conv} {fam}{cen} {k * len(big)} atoms", one, ctx, it, fn, conv, fam, cen, big, tuple(range(k * len(big))))
                if k > 1:
                    seen = set()
                    g = oracle.rng(7, fam, cen, str(ptypes))
                    grouped = tuple(sorted(ident, key=lambda i: i % len(ptypes)))
                    for p in [grouped] + [tuple(int(x) for x in g.permutation(len(ident))) for _ in range(40 if ctx.thorough else 3)]:
                        key = tuple(i % len(ptypes) for i in p)
                        if key not in seen:
                            seen.add(key)
                            perms.append(p)
                for n, perm in enumerate(perms):
                    nm = f"{conv} {fam}{cen} {len(ptypes)} atoms, order {n}"
                    if n == 0 or conv == "SC":
                        ctx.ob("get_conventional " + nm, one, ctx, it, "get_conventional", conv, fam, cen, ptypes, perm)
                    if conv != "spglib" or n == 0:
                        ctx.ob("get_primitive " + nm, one, ctx, it, "get_primitive", conv, fam, cen, ptypes, perm)


def patterned(it, pattern):
    """Equivalence relation of the atoms as a constant: the result of the pairwise comparison."""
    from .. import terms as tm

    n = len(pattern)
    m = np.array([[pattern[i] == pattern[j] for j in range(n)] for i in range(n)])

    calls = []

    def isclose(it_, st, args, kwargs):
        t = it_.to_array_T(st, args[0])
        if tm.shape(t) == (n, n):
            b = dict(zip(("a", "b", "rtol", "atol"), args))
            b.update(kwargs)
            b.setdefault("rtol", 1e-5)
            b.setdefault("atol", 1e-8)
            calls.append((st.pc, it_.loc, {k: it_.as_T(st, b[k]) for k in ("a", "b", "rtol", "atol")}))
            return it_.new_array(st, tm.from_np(m))
        return orig(it_, st, args, kwargs)

    from .. import lib

    def orig(it_, st, args, kwargs):
        return lib.np_call(it_, st, "numpy.isclose", args, kwargs)
    it.ext_stubs["numpy.isclose"] = isclose
    return m, calls


def closeness(r, env, want, calls, what):
    """The pairwise comparison finds exactly the pairs of images of one atom."""
    memo = {}
    for pc, loc, b in calls:
        if not rint.guard(pc, env, memo):
            continue
        v = {k: np.asarray(rint.val(r, t, env, memo), dtype=float) for k, t in b.items()}
        got = np.isclose(v["a"], v["b"], rtol=float(v["rtol"]), atol=float(v["atol"]))
        if got.shape != want.shape:
            raise Undecided("other comparison")
        if (got != want).any():
            i, j = (int(x[0]) for x in np.nonzero(got != want))
            raise Violation(f"{what}: atoms {i} and {j} of the conventional cell are {'held for one atom' if got[i, j] else 'not recognised as images of one atom'}", loc, f"closeness {what.split(':')[0]}")


def noisy(env, g, pattern, symprec, kind):
    """Positions that are images of each other within the tolerance, or distinct atoms that are close to each other."""
    e = dict(env)
    c = np.asarray(e["sd.conventional_cell"], dtype=float)
    p = np.array(e["sd.conventional_positions"], dtype=float)
    pat = np.array(pattern)
    if kind == "border":
        # one atom stands at the border of the cell
        p = p - p[0]
    if kind == "close":
        # distinct atoms at the distance of 40 tolerances
        k = pat[0]
        d = 40 * symprec * np.array([0.6, 0.0, 0.8]) @ np.linalg.inv(c)
        for i in range(len(p)):
            if pat[i] != k:
                j = [x for x in range(len(p)) if pat[x] == k][[x for x in range(len(p)) if pat[x] == pat[i]].index(i)]
                p[i] = p[j] + d * (1 + sorted(set(pat) - {k}).index(pat[i]))
    u = g.normal(size=p.shape)
    p = p + 0.45 * symprec * (u / np.linalg.norm(u, axis=1)[:, None]) @ np.linalg.inv(c)
    e["sd.conventional_positions"], e["sd.symprec"] = p, symprec
    return e


def one(ctx, it, fn, conv, fam, cen, PTYPES, perm):
    calls = None
    nat = len(PTYPES) * (1 + len(oracle.CENTRING_VECTORS[cen]))
    scale_r = conv == "SC" and (fam, cen) == ("h", "R")
    if fn == "get_primitive" and conv != "spglib":
        nn = len(PTYPES) if scale_r else nat
        pattern = [i % len(PTYPES) for i in (range(nn) if scale_r else perm)]
        want, calls = patterned(it, pattern)
    try:
        r, cell, at, sd = run_crystal(it, "wulfric.crystal." + fn, fam, cen, conv, ctypes=ctypes_of(cen, PTYPES, perm), ptypes=PTYPES)
    finally:
        it.ext_stubs.pop("numpy.isclose", None)
    if not isinstance(r.value, Tup) or len(r.value.items) != 2:
        raise Undecided("result is not a pair")
    g = oracle.rng(ctx.seed, fn, conv, fam, cen, "pos")
    und = [e for e in r.events if e.kind == "while_cut"]
    n = 0
    for var in variants(g, fam, cen, 14 if ctx.thorough else 3):
        if fam == "m" and cen == "C" and abs(oracle.params(var)[4] - 90) < 1e-9:
            continue
        env = crystal_env(g, fam, cen, var, p=len(PTYPES), perm=perm)
        memo = {}
        x = rint.raised(r, env, memo)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised (lattice parameters {np.round(oracle.params(var), 3)})", x.loc, f"{fn} raises")
        if calls and not scale_r:
            closeness(r, env, want, calls, "exact positions")
            for kind in ("inside", "border", "close"):
                for sp in (1e-5, 1e-2):
                    if kind == "close" and sp > 1e-3:
                        continue
                    closeness(r, noisy(env, g, pattern, sp, kind), want, calls, f"{kind} positions, tolerance {sp}")
                    ctx.count("comparisons")
        new_cell = np.asarray(rint.val(r, r.value.items[0], env, memo), dtype=float)
        atoms = rint.val(r, r.value.items[1], env, memo)
        if not isinstance(atoms, dict) or "positions" not in atoms:
            raise Violation("returned atoms have no positions", rint.blame(r, r.value.items[1]))
        pos = np.asarray(atoms["positions"], dtype=float)
        types = list(atoms.get("spglib_types", []))
        use_prim = scale_r or (fn == "get_primitive" and conv == "spglib")
        src_pos = env["sd.primitive_positions"] if use_prim else env["sd.conventional_positions"]
        src_cell = env["sd.primitive_cell"] if use_prim else env["sd.conventional_cell"]
        src_types = PTYPES if use_prim else ctypes_of(cen, PTYPES, perm)
        modulo = fn == "get_primitive"
        expected_n = len(PTYPES) if (modulo or scale_r) else nat
        if pos.shape != (expected_n, 3):
            raise Violation(f"positions have the shape {pos.shape} instead of {(expected_n, 3)}", rint.blame(r, r.value.items[1]), f"{fn} positions shape")
        cart, src_cart = pos @ new_cell, np.asarray(src_pos) @ src_cell
        loc = pos_loc(r)
        used = set()
        for i, x in enumerate(cart):
            best = None
            for j, y in enumerate(src_cart):
                d = (x - y) @ np.linalg.inv(src_cell)
                ok = oracle.is_lattice_vector(d, "P" if use_prim else cen, 2e-6) if modulo else np.all(np.abs(d - np.round(d)) < 2e-6)
                if ok:
                    best = j
                    break
            if best is None:
                raise Violation(f"atom {i} is at a point without an atom of the crystal "
                                f"(lattice parameters {np.round(oracle.params(var), 3)})", loc, f"{fn} position of atom")
            if types and types[i] != src_types[best]:
                raise Violation(f"atom {i} has type {types[i]} at the place of an atom with type {src_types[best]}", loc, f"{fn} type of atom")
            cls = (best if use_prim else perm[best]) % len(PTYPES) if modulo else best
            if cls in used:
                raise Violation("two returned atoms are at the same place of the crystal", loc, f"{fn} duplicate")
            used.add(cls)
        n += 1
    if n == 0:
        raise Undecided("no point evaluated")
    ctx.count("points", n)


def pos_loc(r):
    st = r.st
    v = r.value.items[1]
    try:
        for k, x in r.it.content(st, v):
            if k == "positions":
                return rint.blame(r, x)
    except Exception:
        pass
    return rint.blame(r, v)
