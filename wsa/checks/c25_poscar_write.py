"""Every written POSCAR file describes the given crystal and can be read back.

The text which the writer passes to the file is a term over symbolic positions
and cell; it is read off and parsed by an independent reader of the format.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State, Tup
from .calls import atoms, cell
from .files import Disk

LEVEL = "other"
FLOOR = 40
FN = "wulfric.io.dump_poscar"
SPECIES = [["Fe"], ["Fe", "O", "Fe"], ["O", "Fe", "O", "Cr"], ["Cr", "Cr", "Br", "Br"], ["X", "Fe", "X"], ["Cu", "C", "Co", "C", "Cu", "Co"], ["Ni", "N", "Ni", "N"], ["S", "Si", "Sc", "S", "Si", "Sc"], ["Fe"] * 11 + ["O"] * 12]


def check(ctx):
    it = ctx.interp("plain")
    for sp in SPECIES:
        for mode in (None, "Direct", "Cartesian"):
            for f in ("array", "list", "arrays"):
                for d in (None, 3, 12) if f == "array" else (None,):
                    ctx.ob(f"species {'-'.join(sp)}, {mode}, {f}, decimals {d}", one, ctx, it, sp, mode, f, d, "species")
        if "X" not in sp:
            ctx.ob(f"names of {'-'.join(sp)}", one, ctx, it, sp, "Direct", "array", None, "names")
            ctx.ob(f"names and species of {'-'.join(sp)}", one, ctx, it, sp, "Direct", "array", None, "both")
    for sp in (["Fe", "O", "Cr"] * 4 + ["Fe"], ["O", "Fe"] * 12):
        for mode in ("Direct", "Cartesian"):
            ctx.ob(f"{len(sp)} interleaved atoms, {mode}", one, ctx, it, sp, mode, "array", None, "species")
    for c in (None, "text", "two\nlines", "two\r\nlines", "a\rb", "\n", "tail\n", "", "1", "a, b; c! # %s {0} {x}", "long " * 40, "tab\there", "x" * 300):
        ctx.ob(f"comment {c!r}", one, ctx, it, ["Fe", "O"], None, "array", None, "species", c)
    for to in (None, "some/file"):
        ctx.ob(f"written to {to}", one, ctx, it, ["Fe", "O"], None, "array", None, "species", "text", to)
    for m in ("direct", "cartesian", "D", "", "Fractional"):
        ctx.ob(f"mode {m!r}", refused, ctx, it, dict(mode=m), ["Fe"], "species")
    ctx.ob("names without an element", refused, ctx, it, {}, ["1", "?"], "names")


def run(it, disk, sp, f, keys, kw, to="object"):
    st = State()
    n = len(sp)
    c = cell(it, st, "array" if f == "array" else "list")
    vals = dict(species=list(sp), names=[f"{s}{i + 1}" for i, s in enumerate(sp)] if keys == "names" and sp[0] not in "1?" else list(sp) if keys == "names" else [f"Ni{i}" for i in range(n)])
    a = atoms(it, st, f, ("species", "names") if keys == "both" else (keys,), n=n, values=vals)
    kw = dict(kw)
    fobj = None
    if to == "object":
        fobj = kw["file_object"] = disk.new(st, [], "given", "w")
    elif to is not None:
        kw["file_object"] = to
    with disk:
        r = it.run(FN, [c, a], kw, st=st)
    loc = fun_loc(it.public(FN))
    return r, loc, fobj


def one(ctx, it, sp, mode, f, d, keys, comment="text", to="object"):
    disk = Disk(it)
    kw = {}
    if mode:
        kw["mode"] = mode
    if d is not None:
        kw["decimals"] = d
    if comment is not None:
        kw["comment"] = comment
    r, loc, fobj = run(it, disk, sp, f, keys, kw, to)
    if r.st.pc == 0:
        raise Violation(f"valid crystal raises {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    if to != "object":
        names = [(n, m[:1]) for n, m, *_ in disk.opened]
        if names != [(to or "POSCAR", "w")]:
            raise Violation(f"files {names} are opened instead of {to or 'POSCAR'}", loc, "file name")
        fobj = disk.opened[0][2]
    g = oracle.rng(ctx.seed, str(sp), str(mode), f, str(d))
    n = len(sp)
    dec = 8 if d is None else d
    for _ in range(2):
        c = oracle.random_cell(g) * g.choice([1, 10, 1000.0])
        p = g.uniform(-2, 2, size=(n, 3))
        env = {"cell": c, "atoms.positions": p}
        for i in range(n):
            env[f"atoms.positions[{i}]"] = p[i]
            for j in range(3):
                env[f"atoms.positions[{i}][{j}]"] = p[i, j]
        for i in range(3):
            for j in range(3):
                env[f"cell[{i}][{j}]"] = c[i, j]
        x = rint.raised(r, env)
        if x is not None:
            raise Violation(f"valid crystal raises {rint.cls_name(x.cls)}", x.loc, "raises")
        parts = rint.val(r, it.getattr(r.st, fobj, "text"), env)
        if not all(isinstance(t, str) for t in parts):
            raise Undecided("written text is not a string")
        text = "".join(parts)
        ctx.count("points")
        try:
            first, scale, cell_, types, pos, md = parse(text)
        except Exception as e:
            raise Violation(f"written file is not a POSCAR file ({type(e).__name__}: {e}): {text!r}", loc, "format")
        tol = 1.01 * 10.0 ** -dec
        if comment is not None and first.split() != comment.split():
            raise Violation(f"comment {comment!r} is written as {first!r}", loc, "comment")
        if cell_.shape != (3, 3) or np.max(np.abs(cell_ - c)) > tol * max(1, abs(scale)):
            raise Violation(f"written cell differs from the given one by {np.max(np.abs(cell_ - c)) if cell_.shape == (3, 3) else cell_.shape}, {dec} decimals", loc, "cell")
        if md != (mode or "Direct")[0]:
            raise Violation(f"mode {mode} is written as {md}", loc, "mode")
        want = p if md == "D" else p @ c
        if sorted(types) != sorted(sp) or len(pos) != n:
            raise Violation(f"atoms of the species {sp} are written as {types}", loc, "species")
        # each written atom is one of the given ones, each given one is written once
        left = set(range(n))
        for t, q in zip(types, pos):
            k = [i for i in left if sp[i] == t and np.max(np.abs(want[i] - q)) <= tol]
            if not k:
                raise Violation(f"written atom {t} {q.tolist()} is not one of the given atoms (mode {md}, {dec} decimals): {want.tolist()}", loc, "positions")
            left.discard(k[0])


def parse(text):
    ls = text.split("\n")
    if ls[-1] != "":
        raise ValueError("no new line at the end")
    ls = ls[:-1]
    first = ls[0]
    if "\r" in first:
        raise ValueError("line break in the comment")
    scale = float(ls[1])
    cell = np.array([[float(x) for x in s.split()] for s in ls[2:5]]) * scale
    names, counts = ls[5].split(), [int(x) for x in ls[6].split()]
    if len(names) != len(counts):
        raise ValueError("names and counts")
    mode = ls[7][0].upper()
    if mode == "K":
        mode = "C"
    pos = [np.array([float(x) for x in s.split()[:3]]) for s in ls[8:]]
    if any(len(x) != 3 for x in pos) or len(pos) != sum(counts):
        raise ValueError("number of positions")
    if mode == "C":
        pos = [x * scale for x in pos]
    return first, scale, cell, [n for n, k in zip(names, counts) for _ in range(k)], pos, mode


def refused(ctx, it, kw, sp, keys):
    for to in ("object", "some/file"):
        disk = Disk(it)
        r, loc, fobj = run(it, disk, sp, "array", keys, kw, to)
        if rint.returned(r):
            raise Violation(f"{kw or 'names without an element'} accepted", loc, "accepted")
        x = r.raises[-1]
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for {kw or 'names without an element'}", x.loc, "class")
        if disk.opened:
            raise Violation("file is opened (and overwritten) before the arguments are refused", disk.opened[0][3], "overwritten")
        if fobj is not None and x.heap is not None:
            t = it.known_items(State(heap=dict(x.heap)), it.getattr(State(heap=dict(x.heap)), fobj, "text"))
            if t:
                raise Violation("text is written before the arguments are refused", x.loc, "written")
