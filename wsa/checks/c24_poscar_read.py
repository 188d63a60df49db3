"""Every POSCAR file is read as its format defines.

The reader is analysed on an abstract file whose numbers are symbols and whose
layout is enumerated (scale factors x names x selective dynamics x mode x counts);
cell, positions and names are compared with the definition of the format.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State
from .files import Disk

LEVEL = "other"
FLOOR = 60
ASSUMPTIONS = ["the file is well-formed and numbers are parsed by float()"]
FN = "wulfric.io.load_poscar"
SEL = (None, "Selective dynamics", "s", "selective", "SEL")
COUNTS = [(1,), (2,), (2, 1), (1, 3, 2)]
SPECIES = [(("Fe", "O", "Fe"), (1, 2, 1)), (("Fe_pv", "O_h"), (2, 1)), (("X", "Y"), (1, 1)), (("Fe1", "Fe2", "O"), (1, 1, 2)), (("Fe/1a2b", "C"), (1, 2)), (("C", "Co", "Cu"), (1, 2, 1)), (("K", "S"), (1, 1)), (("Se", "D"), (2, 1)),
           (("Fe", "O", "Cr", "Br"), (1, 1, 2, 1)), (("1Fe", "2"), (1, 2))]
COMMENTS = ["", " ", "1", "Fe O", "S", "Direct", "a\ttab and  two spaces", "# a comment! which is longer than " + "any short field of the format would allow " * 4, "1 2 3"]
TAILS = [["\n"], ["\n", "  0.1 0.2 0.3\n", "0.1 0.1 0.1\n", "0 0 0\n"], ["Direct\n", "1 2 3\n"], [" \n", "\n", "\n"]]
MODES = ["Direct", "direct", "D", "Cartesian", "cartesian", "C", "c", "Kartesian", "k"]


def check(ctx):
    it = ctx.interp("plain")
    k = 0
    for scale in ("1", "-1", "3"):
        for names in (False, True):
            for sel in SEL:
                for m in MODES:
                    c = COUNTS[k % len(COUNTS)]
                    k += 1
                    ctx.ob(f"scale {scale}, {'names' if names else 'no names'}, {sel}, {m}, counts {c}", one, ctx, it, scale, names, sel, m, c)
    for sp, c in SPECIES:
        for m in ("Direct", "Cartesian"):
            ctx.ob(f"species line {' '.join(sp)}, counts {c}, {m}", one, ctx, it, "1", sp, None, m, c)
    for c in ((12,), (1, 1, 1, 1), (0, 2), (2, 0, 1)):
        for sp in (True, False):
            ctx.ob(f"counts {c}, {'names' if sp else 'no names'}", one, ctx, it, "1", sp, "S", "Direct", c)
    many = (1, 2, 1, 1, 2, 1, 1, 1, 2, 1, 1)
    for sp in (["Fe", "O", "Cr", "Br", "H", "C", "N", "S", "Ni", "Cu", "Al"], False):
        for m in ("Direct", "Cartesian"):
            ctx.ob(f"{len(many)} species, {'names' if sp else 'no names'}, {m}", one, ctx, it, "1", sp, None, m, many)
    for com in COMMENTS:
        ctx.ob(f"comment {com!r}", one, ctx, it, "1", True, None, "Direct", (2, 1), None, "object", com)
    for tail in TAILS:
        ctx.ob(f"file continued by {tail[0]!r}", one, ctx, it, "1", True, None, "Direct", (2, 1), None, "object", None, tail)
    for n in ("0", "2", "4", "-3"):
        ctx.ob(f"{n} scale factors", refused, ctx, it, n)
    for how in ("object", "path", "directory", "directory/", "default", "missing", "missing default"):
        ctx.ob(f"file given as {how}", source, ctx, it, how)


def lines(scale, names, sel, mode, counts, nscale=None, comment=None, tail=()):
    sp = ["Fe", "O", "Cr", "Br"] if names is True else names
    out = ["  comment with spaces  \n" if comment is None else comment + "\n"]
    ns = nscale if nscale is not None else 3 if scale == "3" else 1
    out.append("  ".join(f"<s{i}>" for i in range(ns)) + "\n")
    out += ["  " + " ".join(f"<c{i}{j}>" for j in range(3)) + "\n" for i in range(3)]
    if names:
        out.append(" " + " ".join(sp[:len(counts)]) + "\n")
    out.append(" ".join(map(str, counts)) + "  \n")
    if sel:
        out.append(sel + "\n")
    out.append(mode + "\n")
    out += [" ".join(f"<p{i}{j}>" for j in range(3)) + (" T F T" if sel else "") + "\n" for i in range(sum(counts))]
    return out + list(tail)


def env_of(g, scale, n):
    c = oracle.random_cell(g)
    env = {f"c{i}{j}": c[i, j] for i in range(3) for j in range(3)}
    s = g.uniform(0.5, 3, size=3) * (-10 if scale == "-1" else 1)
    env.update({f"s{i}": s[i] for i in range(3)})
    p = g.uniform(-1, 2, size=(n, 3))
    env.update({f"p{i}{j}": p[i, j] for i in range(n) for j in range(3)})
    return env, c, s, p


def run(it, disk, text, arg=None):
    st = State()
    f = disk.new(st, text, "given", "r") if arg == "object" else None
    with disk:
        r = it.run(FN, [f] if f is not None else [] if arg is None else [arg], {}, st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(FN))
    return r, loc, f


def result(it, r, env, loc):
    x = rint.raised(r, env)
    if x is not None or r.st.pc == 0:
        x = x or r.raises[-1]
        raise Violation(f"well-formed file raises {rint.cls_name(x.cls)}", x.loc, "raises")
    v = it.known_items(r.st, r.value)
    if v is None or len(v) != 3:
        raise Undecided("result is not a triple")
    return [rint.val(r, x, env) for x in v]


def one(ctx, it, scale, names, sel, mode, counts, disk=None, arg="object", com=None, tail=()):
    text = lines(scale, names, sel, mode, counts, None, com, tail)
    r, loc, f = run(it, disk or Disk(it), text, arg)
    g = oracle.rng(ctx.seed, scale, names, str(sel), mode)
    n = sum(counts)
    for small in (False, True):
        env, c, s, p = env_of(g, scale, n)
        if small:
            s = s / 40
            env.update({f"s{i}": s[i] for i in range(3)})
        cell, atoms, comment = result(it, r, env, loc)
        if scale == "1":
            sc = np.ones(3) * s[0]
        elif scale == "-1":
            sc = np.ones(3) * (-s[0] / abs(np.linalg.det(c))) ** (1 / 3)
        else:
            sc = s
        want = c * sc
        ctx.count("points")
        if np.shape(cell) != (3, 3) or not rint.close(cell, want):
            raise Violation(f"cell is {np.round(cell, 4).tolist()}, {np.round(want, 4).tolist()} expected (scale factors {s[:1 if scale != '3' else 3].tolist()})", loc, f"cell scale {scale}")
        cart = mode[0] in "cCkK"
        wp = (p * sc) @ np.linalg.inv(want) if cart else p
        if set(atoms) != {"names", "positions"}:
            raise Violation(f"atoms have the keys {sorted(atoms)}", loc, "keys")
        got = np.array([np.asarray(x, dtype=float) for x in atoms["positions"]])
        if got.shape != wp.shape or not rint.close(got, wp):
            raise Violation(f"positions are {np.round(got, 4).tolist()}, {np.round(wp, 4).tolist()} expected ({mode}, scale {scale})", loc, f"positions {'Cartesian' if cart else 'Direct'}")
        sp = (["Fe", "O", "Cr", "Br"] if names is True else names) if names else [f"X{i + 1}" for i in range(len(counts))]
        wn = [sp[i] for i, k in enumerate(counts) for _ in range(k)]
        if list(atoms["names"]) != wn:
            raise Violation(f"names are {list(atoms['names'])}, {wn} expected", loc, "names")
        if comment != ("comment with spaces" if com is None else com.strip()):
            raise Violation(f"comment is {comment!r}", loc, "comment")


def refused(ctx, it, n):
    k = abs(int(n))
    r, loc, f = run(it, Disk(it), lines("1", True, None, "Direct", (1,), nscale=k), "object")
    env, *_ = env_of(oracle.rng(ctx.seed, n), "1", 1)
    env["s3"] = 1.0
    if n == "-3":
        env["s1"] = -1.0
    x = rint.raised(r, env, strict=True) if r.st.pc != 0 else r.raises[-1]
    if x is None:
        raise Violation(f"{'three scale factors with a negative one' if n == '-3' else n + ' scale factors'} accepted", loc, f"scale {n} accepted")
    if rint.cls_name(x.cls) != "ValueError":
        raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for wrong scale factors", x.loc, "scale class")


def source(ctx, it, how):
    text = lines("1", True, None, "Direct", (2, 1))
    if how.startswith("missing"):
        r, loc, f = run(it, Disk(it, dirs=["there"]), text, None if how != "missing" else "nowhere")
        if rint.returned(r):
            raise Violation("missing file gives a result", loc, "missing")
        if any(rint.cls_name(x.cls) != "FileNotFoundError" for x in rint.sure(r)):
            raise Violation(f"{rint.cls_name(r.raises[-1].cls)} instead of FileNotFoundError", r.raises[-1].loc, "missing class")
        return
    disk = Disk(it, dict(path={"some/file": text}, default={"POSCAR": text}).get(how, {"some/dir/POSCAR": text, "some/dir//POSCAR": text}), dirs=["some", "some/dir"])
    one(ctx, it, "1", True, None, "Direct", (2, 1), disk, dict(object="object", path="some/file", default=None).get(how, "some/dir" + how[9:]))
