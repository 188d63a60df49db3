"""Every key of atoms is carried over from the corresponding atom (last found one of its type).

The dictionaries returned by get_conventional and get_primitive are extracted
with symbolic values under every key; each element has to be the symbol of the
last original atom of the type of the new atom.  No key is lost, none but
spglib_types is invented, all the lists have the length of positions.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from .c02_same_atoms import patterned
from .common import Tup, crystal_env, crystal_interp, ctypes_of, run_crystal

LEVEL = "other"
FLOOR = 60
OT = [[2, 1, 2, 1], [1, 1, 2], [2, 2, 1], [1, 2], [1, 2, 1, 2, 2]]
OT3 = [[3, 1, 2, 1], [2, 7, 7, 4], [1], [5]]


MANY = ([1, 2] * 5 + [3, 1, 2], [7, 2, 11, 4, 1, 12, 9, 3, 10, 5, 8, 6])


def check(ctx):
    it = crystal_interp(ctx)
    lts = [("c", "F"), ("h", "R"), ("a", "P"), ("o", "A"), ("t", "P"), ("m", "C")] if not ctx.thorough else oracle.LATTICE_TYPES
    for fn in ("get_conventional", "get_primitive"):
        for conv in ("hpkot", "SC", "spglib"):
            for k, (fam, cen) in enumerate(lts):
                if (fam, cen) in (("a", "P"), ("o", "A"), ("h", "R")):
                    for ot in MANY:
                        for user in (False, True):
                            ctx.ob(f"{fn} {conv} {fam}{cen} types {ot}" + (" given" if user else ""), one, ctx, it, fn, conv, fam, cen, ot, user)
                for n, ot in enumerate(OT + OT3):
                    if not ctx.thorough and n and len(ot) > 1 and (n + k) % 3:
                        continue
                    for user in (False, True):
                        ctx.ob(f"{fn} {conv} {fam}{cen} types {ot}" + (" given" if user else ""), one, ctx, it, fn, conv, fam, cen, ot, user)


def one(ctx, it, fn, conv, fam, cen, ot, user):
    ptypes = sorted(set(ot), reverse=True)
    ptypes = ptypes + [ptypes[0]]
    nat = len(ptypes) * (1 + len(oracle.CENTRING_VECTORS[cen]))
    scale_r = conv == "SC" and (fam, cen) == ("h", "R")
    if fn == "get_primitive" and conv != "spglib":
        patterned(it, [i % len(ptypes) for i in range(len(ptypes) if scale_r else nat)])
    keys = ("names", "species", "mykey", "user", "_tag", "charges", "positions2", "spglib", "Names")
    try:
        r, cell, at, sd = run_crystal(it, "wulfric.crystal." + fn, fam, cen, conv, ctypes=ctypes_of(cen, ptypes), ptypes=ptypes,
                                      otypes=ot, keys=keys, spglib_types=ot if user else None)
    finally:
        it.ext_stubs.pop("numpy.isclose", None)
    if r.st.pc == 0 and r.raises and rint.cls_name(r.raises[-1].cls) in ("KeyError", "IndexError"):
        x = r.raises[-1]
        raise Violation(f"{rint.cls_name(x.cls)} is raised", x.loc, f"{fn} raises")
    if not isinstance(r.value, Tup) or len(r.value.items) != 2:
        raise Undecided("result is not a pair")
    env = crystal_env(oracle.rng(ctx.seed, fam, cen), fam, cen, n=len(ot), p=len(ptypes))
    memo = {}
    x = rint.raised(r, env, memo)
    if x is not None:
        raise Violation(f"{rint.cls_name(x.cls)} is raised", x.loc, f"{fn} raises")
    out = rint.val(r, r.value.items[1], env, memo)
    prim = fn == "get_primitive" or scale_r
    src = ptypes if prim else ctypes_of(cen, ptypes)
    want = set(keys) | {"positions", "spglib_types"}
    f = it.public("wulfric.crystal." + fn)
    from ..core import fun_loc
    loc = rint.blame(r, r.value.items[1]) or fun_loc(f)
    if not isinstance(out, dict) or set(out) != want:
        raise Violation(f"keys of the returned atoms are {sorted(out)} instead of {sorted(want)}", loc, f"{fn} keys")
    last = {t: i for i, t in enumerate(ot)}
    m = len(out["positions"])
    for k in sorted(want - {"positions"}):
        v = out[k]
        if isinstance(v, np.ndarray):
            v = list(v)
        if len(v) != m:
            raise Violation(f'"{k}" has {len(v)} elements for {m} atoms', loc, f"{fn} length {k}")
        types = [int(t) for t in out["spglib_types"]]
        if sorted(types) != sorted(src):
            raise Violation(f"types of the returned atoms are {types}, those of the crystal are {src}", loc, f"{fn} types")
        for i in range(m):
            t = types[i]
            e = t if k == "spglib_types" else f"{k}{last[t]}"
            if v[i] != e:
                raise Violation(f'"{k}" of returned atom {i} (type {t}) is {v[i]!r}; the last atom of this type has {e!r}', key_loc(r, k) or loc, f"{fn} {k if k == 'spglib_types' else 'key'}")
    ctx.count("lists_compared", len(want) - 1)


def key_loc(r, key):
    try:
        for k, x in r.it.content(r.st, r.value.items[1]):
            if k == key:
                for y in r.it.content(r.st, x):
                    return rint.blame(r, y)
    except Exception:
        return None
