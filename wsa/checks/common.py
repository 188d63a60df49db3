"""Shared set-up of the checks: modular stubs, crystals of every lattice type."""
import math

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr, satoms, spglib_data
from ..interp import Cls, Ext, Fun, Ref, State, Tup, U, cases_of
from ..terms import const, mk

OTYPES = [2, 1, 2, 1]
PTYPES = [2, 1]


def ctypes_of(cen, ptypes=None, perm=None):
    """Types in the conventional cell: the primitive ones repeated by the centring, interleaved or permuted."""
    t = list(ptypes or PTYPES) * (1 + len(oracle.CENTRING_VECTORS[cen]))
    return t if perm is None else [t[i] for i in perm]


def bind(f, args, kwargs):
    """Arguments by parameter name (None if not statically bound)."""
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    d = dict(f.defaults)
    d.update(zip(names, args))
    d.update(kwargs)
    return d


def crystal_interp(ctx, key="crystal"):
    """Interpreter with the modular summaries of validate_atoms, validate_spglib_data, get_spglib_data, get_niggli."""
    it = ctx.interp(key)
    if not hasattr(it, "crystal_stubs"):
        it.crystal_stubs = True
        it.calls = []

        def rec(name, ret):
            f = it.public(name)

            def stub(it_, st, args, kwargs):
                b = bind(f, args, kwargs)
                it_.calls.append((name, st.pc, {k: v for k, v in b.items()}, dict(st.heap), it_.loc, st))
                return ret(it_, st, b)
            it.stub_public(name, stub)
        rec("wulfric.crystal.validate_atoms", lambda i, s, b: True)
        rec("wulfric.validate_spglib_data", lambda i, s, b: None)
        rec("wulfric.cell.get_niggli", lambda i, s, b: i.new_array(s, mk("stub", "niggli", i.as_T(s, b["cell"]))))
        rec("wulfric.cell.get_params", lambda i, s, b: Tup([mk("stub", "params[]", i.to_array_T(s, b["cell"]), const(k)) for k in range(6)]))
    return it


def params_snap(cell, i):
    """Lengths and angles; ties and right angles are exact (values within 1e-9 are identified)."""
    p = list(oracle.params(np.asarray(cell, dtype=float)))
    for k in range(3):
        for j in range(k):
            if abs(p[k] - p[j]) < 1e-9:
                p[k] = p[j]
    for k in range(3, 6):
        if abs(p[k] - 90) < 1e-7:
            p[k] = 90.0
        for j in range(3, k):
            if abs(p[k] - p[j]) < 1e-7:
                p[k] = p[j]
    return p[i]


PRIM_STD = {
    "P": np.eye(3), "A": np.array([[1, 0, 0], [0, .5, -.5], [0, .5, .5]]), "C": np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1.]]),
    "I": np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), "F": np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    "R": np.array([[2 / 3, 1 / 3, 1 / 3], [-1 / 3, 1 / 3, 1 / 3], [-1 / 3, -2 / 3, 1 / 3]]),
}


def run_crystal(it, fn, fam, cen, conv, number=None, keys=("names", "species", "mykey"), n_atoms=None, otypes=None, ctypes=None, ptypes=None,
                extra_kwargs=None, spglib_types=None):
    otypes = OTYPES if otypes is None else otypes
    st = State()
    cell = sarr(it, st, "cell", (3, 3))
    at = satoms(it, st, len(otypes), keys, spglib_types=spglib_types)
    sd = spglib_data(it, st, number or oracle.REPRESENTATIVE[(fam, cen)][0], fam, cen, otypes,
                     ctypes_of(cen) if ctypes is None else ctypes, PTYPES if ptypes is None else ptypes)
    kw = dict(spglib_data=sd)
    if conv is not None:
        kw["convention"] = conv
    kw.update(extra_kwargs or {})
    r = it.run(fn, [cell, at], kw, st=st)
    return r, cell, at, sd


def crystal_env(g, fam, cen, variant=None, n=4, p=2, symprec=1e-5, perm=None):
    """One point of the domain: cells of the given family, free positions."""
    conv = variant if variant is not None else oracle.std_cell(g, fam, cen)
    if fam == "h" and cen == "R":
        prim = PRIM_STD["R"] @ conv
        s = [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)][int(g.integers(4))]
        prim = np.diag(s) @ prim
    else:
        prim = PRIM_STD[cen] @ conv
    u = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    base = (np.arange(p)[:, None] * (0.9 / p) + g.uniform(0.03, 0.5 / p, size=(p, 3))) % 1
    cpos = np.concatenate([base + np.array(t) for t in [(0, 0, 0)] + oracle.CENTRING_VECTORS[cen]])
    if perm is not None:
        cpos = cpos[list(perm)]
    cpos = cpos + g.integers(-1, 2, size=cpos.shape)
    env = {
        "sd.conventional_cell": conv, "sd.primitive_cell": prim,
        "sd.original_cell": u @ prim, "cell": u @ prim,
        "sd.conventional_positions": cpos, "sd.primitive_positions": g.uniform(0, 1, size=(p, 3)),
        "sd.original_positions": g.uniform(0, 1, size=(n, 3)), "sd.symprec": symprec,
        ("stub", "niggli"): oracle.niggli, ("stub", "params[]"): params_snap,
    }
    env["atoms.positions"] = env["sd.original_positions"]
    for k in ("names", "species", "mykey", "user", "_tag", "charges", "positions2", "spglib", "Names"):
        for i in range(n):
            env[f"atoms.{k}[{i}]"] = f"{k}{i}"
    return env


def variants(g, fam, cen, n):
    """Cells which cover every weak order of the lattice parameters that the family allows."""
    out = []
    if fam == "o":
        import itertools
        for p in itertools.permutations(range(3)):
            out.append(oracle.std_cell(g, fam, cen, order=p))
        for a, b, c in [(3, 3, 5), (3, 5, 3), (5, 3, 3), (5, 5, 3), (5, 3, 5), (3, 5, 5), (4, 4, 4),
                        (3, 3.0003, 5), (3.0003, 3, 5), (5, 3, 3.0003), (5, 3.0003, 3), (3, 5, 3.0003), (3.0003, 5, 3), (4, 4.0003, 4.0006), (4.0006, 4.0003, 4),
                        (3, 3.00002, 5), (3.00002, 3, 5), (5, 3.00002, 3), (5, 3, 3.00002), (3.00002, 5, 3), (3, 5, 3.00002)]:
            out.append(np.diag([float(a), float(b), float(c)]))
    elif fam in "th":
        for o in (0, 1):
            out.append(oracle.std_cell(g, fam, cen, order=o))
        out.append(oracle.from_params(4, 4, 4, 90, 90, 120) if fam == "h" else np.eye(3) * 4.0)
    elif fam == "m":
        for a, b, c, be in [(3, 4, 5, 100), (5, 4, 3, 95), (4, 3, 5, 125), (4, 5, 3, 110), (5, 3, 4, 101), (3, 5, 4, 130), (4, 4, 4, 100),
                            (3, 3, 5, 100), (5, 3, 3, 99), (3, 5, 3, 97), (3, 4, 5, 90), (6, 2, 3, 80), (2, 6, 3, 75), (3, 4, 5, 90.3), (4, 3, 5, 89.6), (5, 4, 3, 90.02),
                            (3, 4, 4.0003, 100), (3, 4.0003, 4, 100), (4, 3, 4.0003, 105), (4.0003, 3, 4, 105), (4, 4.0003, 3, 95), (4.0003, 4, 3, 95),
                            (3, 4, 4.00002, 100), (3, 4.00002, 4, 100), (4, 3, 4.00002, 105), (4.00002, 3, 4, 105)]:
            out.append(oracle.from_params(a, b, c, 90, be, 90) @ oracle.random_rotation(g))
    elif fam == "a":
        # all sign patterns of the reciprocal angles
        for s in range(8):
            sg = [1 if s & (1 << i) else -1 for i in range(3)]
            al, be, ga = [90 + x * g.uniform(5, 20) for x in sg]
            r = oracle.from_params(g.uniform(2, 5), g.uniform(2, 5), g.uniform(2, 5), al, be, ga)
            out.append(oracle.recip(r) @ oracle.random_rotation(g))
        for al, be, ga in [(80, 85, 70), (70, 80, 85), (85, 70, 80), (100, 95, 110), (110, 100, 95), (95, 110, 100)]:
            out.append(oracle.recip(oracle.from_params(3.1, 2.7, 4.2, al, be, ga)))
        for al, be, ga in [(90, 80, 85), (90, 90, 80), (90, 100, 95), (100, 90, 80), (80, 90, 100),
                           (90.0002, 97, 84), (84, 90.0002, 97), (97, 84, 90.0002), (89.9998, 97, 84), (89.9998, 97, 98), (90.0002, 84, 83)]:
            out.append(oracle.recip(oracle.from_params(3.1, 2.7, 4.2, al, be, ga)))
        # right reciprocal angles, blurred by the rounding of floats
        for al, be, ga in [(90, 97, 98), (97, 90, 98), (98, 97, 90), (90, 90, 98), (90, 98, 90), (98, 90, 90), (90, 90, 82), (82, 90, 90), (90, 82, 90), (90, 90, 90)]:
            out.append(oracle.recip(oracle.from_params(g.uniform(2, 5), g.uniform(2, 5), g.uniform(2, 5), al, be, ga)) @ oracle.random_rotation(g))
    while len(out) < n:
        out.append(oracle.std_cell(g, fam, cen))
    return out


def entry_loc(it, dotted, key):
    """Source position of the entry of a module-level dictionary literal (or of the module)."""
    import ast
    name = dotted.split(".")[-1]
    for m in it.modules.values():
        for s in getattr(m.tree, "body", []):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
            if any(isinstance(x, ast.Name) and x.id == name for x in tg):
                if isinstance(s.value, ast.Dict):
                    for k in s.value.keys:
                        if isinstance(k, ast.Constant) and k.value == key:
                            return (m.path, m.name, k.lineno)
                return (m.path, m.name, s.lineno)
    return None
