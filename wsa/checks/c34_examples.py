"""Example cells and crystals are of the type they are requested by.

Constructors: value graph for symbolic parameters against the published
vectors. sc_get_example: constants are propagated and the resulting cell is
classified by the independent rules of the convention. hpkot_get_example:
constant propagation of the file name, the named data file is read by an
independent reader.
"""
import math
import os

import numpy as np

from .. import oracle, oracle_k, rint
from .. import terms as tm
from ..core import SRC, Undecided, Violation, fun_loc
from ..interp import State

LEVEL = "other"
FLOOR = 100
ASSUMPTIONS = ["io.load_poscar reads the file it is given (see the property of reading)"]
SC = "wulfric.cell."
I, C = np.eye(3), np.array
# primitive vectors in terms of the conventional ones, as published
PRIM = {"FCC": C([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), "BCC": C([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
        "ORCC": C([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]]), "MCLC": C([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])}
FORM = {"CUB": ("aaa", I), "FCC": ("aaa", PRIM["FCC"]), "BCC": ("aaa", PRIM["BCC"]), "TET": ("aac", I), "BCT": ("aac", PRIM["BCC"]), "ORC": ("abc", I), "ORCF": ("abc", PRIM["FCC"]),
        "ORCI": ("abc", PRIM["BCC"]), "ORCC": ("abc", PRIM["ORCC"])}
TYPES = {v: k for k, v in oracle_k.SC_SHORT.items() if k != "oA"}
VARIATIONS = ("CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 MCLC3 MCLC4 MCLC5 TRI1a TRI2a TRI1b TRI2b").split()
HPKOT = "cP1 cP2 cF1 cF2 cI1 tP1 tI1 tI2 oP1 oF1 oF2 oF3 oI1 oI2 oI3 oC1 oC2 oA1 oA2 hP1 hP2 hR1 hR2 mP1 mC1 mC2 mC3 aP2 aP3".split()
NO_INVERSION_ONLY = ("oF2", "oI2", "oA1", "oA2")


def short(v):
    return v.rstrip("ab").rstrip("12345") if v.startswith("TRI") else v.rstrip("12345")


def check(ctx):
    it = ctx.interp("plain")
    for n in list(FORM) + ["HEX", "RHL", "MCL", "MCLC"]:
        ctx.ob(f"cell SC_{n}", constructor, ctx, it, n)
    for inv in (None, False, True):
        ctx.ob(f"cell SC_TRI (input_reciprocal {inv})", triclinic, ctx, it, inv)
    for v in VARIATIONS:
        for name in sorted({v, v.lower(), v.upper(), v.swapcase(), v.capitalize()}):
            ctx.ob(f"example {name}", example, ctx, it, name, v)
    for s in sorted({short(v) for v in VARIATIONS}):
        for name in (s, s.lower()):
            ctx.ob(f"example of the type {name}", example, ctx, it, name, s)
    for bad in ("", "CUB1", "FCC2", "ORCF4", "ORCF0", "ORCI1", "RHL3", "MCLC6", "MCLC 1", "TRI3a", "TRI1c", "TRIA", "cubic", "BCT 1", " CUB", "hP", "oF1", None, 5, 1.5):
        ctx.ob(f"no example {bad!r}", no_example, ctx, it, bad)
    it2 = ctx.interp("files")
    for s in HPKOT + sorted({x[:2] for x in HPKOT}):
        for inv in (None, False, True):
            ctx.ob(f"crystal {s}, inversion {inv}", crystal, ctx, it2, s, inv)
    for bad in ("aP", "aP1", "oF4", "CP1", "cp1", "xx", "", "tP2", "hR3", "mC4", "oC3", "cP1 ", "mP"):
        if bad not in HPKOT and bad not in {x[:2] for x in HPKOT}:
            for inv in (False, True):
                ctx.ob(f"no crystal {bad!r}, inversion {inv}", no_crystal, ctx, it2, bad, inv)


def points(ctx, name, n=6):
    g = oracle.rng(ctx.seed, name)
    for _ in range(n):
        yield dict(a=g.uniform(0.5, 9), b=g.uniform(0.5, 9), c=g.uniform(0.5, 9), alpha=g.uniform(30, 150) if name != "RHL" else g.uniform(20, 118))


def published(name, e):
    a, b, c, al = e["a"], e["b"], e["c"], math.radians(e["alpha"])
    if name in FORM:
        f, p = FORM[name]
        return p @ np.diag([e[x] for x in f])
    if name == "HEX":
        return C([[a / 2, -a * math.sqrt(3) / 2, 0], [a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]])
    if name == "RHL":
        x = math.cos(al) / math.cos(al / 2)
        return C([[a * math.cos(al / 2), -a * math.sin(al / 2), 0], [a * math.cos(al / 2), a * math.sin(al / 2), 0], [a * x, 0, a * math.sqrt(1 - x * x)]])
    m = C([[a, 0, 0], [0, b, 0], [0, c * math.cos(al), c * math.sin(al)]])
    return PRIM.get(name, I) @ m


def constructor(ctx, it, n):
    args = {"HEX": "a c", "RHL": "a alpha", "MCL": "a b c alpha", "MCLC": "a b c alpha"}.get(n) or " ".join(sorted(set(FORM[n][0])))
    fn = SC + "SC_" + n
    for mode in ("positional", "keywords"):
        st = State()
        v = {x: tm.sym(x, "float") for x in args.split()}
        r = it.run(fn, list(v.values()) if mode == "positional" else [], v if mode == "keywords" else {}, st=st)
        loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
        for e in points(ctx, n):
            if rint.raised(r, e):
                raise Violation(f"SC_{n} raises for {e}", rint.raised(r, e).loc, "raises")
            got, want = rint.val(r, r.value, e), published(n, e)
            if not rint.close(got, want):
                raise Violation(f"SC_{n} is {np.round(got, 4).tolist()}, published {np.round(want, 4).tolist()} for {args} = {[round(e[x], 4) for x in args.split()]}", loc, f"SC_{n}")


def triclinic(ctx, it, inv):
    fn = SC + "SC_TRI"
    st = State()
    v = [tm.sym(x, "float") for x in ("a", "b", "c", "alpha", "beta", "gamma")]
    r = it.run(fn, v, {} if inv is None else dict(input_reciprocal=inv), st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
    g = oracle.rng(ctx.seed, "tri", str(inv))
    for k in range(14):
        p = list(oracle.params(oracle.random_cell(g)))
        if k >= 8:  # special cells: equal lengths, equal angles, right angles
            p = [(2, 2, 2, 90, 90, 90), (1, 2, 3, 90, 90, 90), (2, 2, 2, 75, 75, 75), (1, 1, 3, 80, 80, 110), (1, 2, 3, 90, 100, 90), (3, 2, 1, 70, 100, 100)][k - 8]
        e = dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), p))
        if rint.raised(r, e):
            raise Violation(f"SC_TRI raises for the parameters {np.round(p, 3)}", rint.raised(r, e).loc, "raises")
        got = np.asarray(rint.val(r, r.value, e), dtype=float)
        q = oracle.params(oracle.recip(got) if inv else got)
        if not rint.close(q, p, 1e-6):
            raise Violation(f"{'reciprocal ' if inv else ''}cell of SC_TRI has the parameters {np.round(q, 4)} instead of {np.round(p, 4)}", loc, "SC_TRI")


def classify(sh, m):
    """Variations of the cell m among those of the type sh; None when m is not of the type."""
    lt = TYPES[sh]
    if sh in FORM:
        f, p = FORM[sh]
        conv = np.linalg.inv(p) @ m
        l, ang = oracle.params(conv)[:3], oracle.params(conv)[3:]
        if not rint.close(ang, [90] * 3, 1e-9) or np.linalg.det(conv) <= 0:
            return None
        d = dict(zip(f, l))
        if not rint.close([d[x] for x in f], l, 1e-9):
            return None
        if f == "aac" and abs(l[0] - l[2]) < 1e-6 or f == "abc" and not l[0] + 1e-6 < l[1] < l[2] - 1e-6:
            return None
    elif sh == "HEX":
        q = oracle.params(m)
        if not rint.close(q[3:], [90, 90, 120], 1e-9) or abs(q[0] - q[1]) > 1e-9:
            return None
        conv = m
    elif sh == "RHL":
        q = oracle.params(m)
        if max(q[:3]) - min(q[:3]) > 1e-9 or max(q[3:]) - min(q[3:]) > 1e-7:
            return None
        for x in (60, 90, math.degrees(math.acos(-1 / 3))):  # cubic lattices
            if abs(q[3] - x) < 1e-3:
                return None
        conv = m
    elif sh in ("MCL", "MCLC"):
        conv = np.linalg.inv(PRIM.get(sh, I)) @ m
        q = oracle.params(conv)
        if not rint.close(q[4:], [90, 90], 1e-9) or not q[3] < 90 - 1e-6:
            return None
        if sh == "MCL" and not (q[0] <= q[2] and q[1] <= q[2]):
            return None
    else:
        if np.linalg.det(m) <= 0:
            return None
        k = oracle.niggli(oracle.recip(m))
        x = [v - 90 for v in oracle.params(k)[3:]]
        z = sum(abs(v) < 1e-5 for v in x)
        if z == 1:
            return {"TRI2a", "TRI2b"}
        if z > 1:
            return None
        return {"TRI1a"} if all(v > 0 for v in x) else ({"TRI1b"} if all(v < 0 for v in x) else None)
    r = oracle_k.sc_variations(lt, conv, m, 1e-8, 1e-6)
    return None if r in (None, "error") else {r}


def example(ctx, it, name, want):
    fn = SC + "sc_get_example"
    st = State()
    r = it.run(fn, [name], {}, st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the supported name {name!r}", r.raises[-1].loc, f"{want} raises")
    m = np.asarray(rint.val(r, r.value, {}), dtype=float)
    if m.shape != (3, 3):
        raise Violation(f"example {name} has the shape {m.shape}", loc, f"{want} shape")
    c = classify(short(want), m)
    if c is None:
        raise Violation(f"example {name} with the parameters {np.round(oracle.params(m), 4)} is not of the type {short(want)}", loc, f"{want} type")
    if want in VARIATIONS and want not in c and short(want) not in c:
        raise Violation(f"example {name} is of the variation {' or '.join(sorted(c))}", loc, f"{want} variation")


def no_example(ctx, it, bad):
    fn = SC + "sc_get_example"
    st = State()
    r = it.run(fn, [bad], {}, st=st)
    if rint.returned(r):
        raise Violation(f"unsupported name {bad!r} is accepted", r.exits[-1].loc if r.exits else fun_loc(it.public(fn)), "accepted")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for the unsupported name {bad!r}", x.loc, "class")


# ------------------------------------------------------------------ HPKOT
def run(it, s, inv):
    it.files = []

    def load(i, st, a, k):
        i.files.append((st.pc, (list(a) + list(k.values()) + [None])[0]))
        from ..interp import Tup
        return Tup([i.new_array(st, tm.sym("cell", ("arr", (3, 3)))), i.new_dict(st, [("positions", tm.sym("pos", ("arr", (2, 3))))], "fresh"), "comment"])
    it.stub_public("wulfric.io.load_poscar", load)
    fn = "wulfric.crystal.hpkot_get_example"
    r = it.run(fn, [s], {} if inv is None else dict(with_inversion=inv), st=State())
    return r, fun_loc(it.public(fn))


def crystal(ctx, it, s, inv):
    r, loc = run(it, s, inv)
    must_refuse = inv and (s in NO_INVERSION_ONLY or s == "oA")
    if must_refuse:
        if rint.returned(r):
            raise Violation(f"there is no crystal {s} with inversion, but it is not refused", r.exits[-1].loc if r.exits else loc, "not refused")
        for x in rint.sure(r):
            if rint.cls_name(x.cls) != "ValueError":
                raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError", x.loc, "class")
        return
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the supported symbol {s}", r.raises[-1].loc, "raises")
    if len(it.files) != 1 or not isinstance(it.files[0][1], str):
        raise Undecided("name of the file is not a constant")
    p = it.files[0][1].replace(os.sep, "/")
    rel = p[p.rindex("wulfric/"):]
    full = os.path.join(SRC, rel)
    if not os.path.isfile(full):
        raise Violation(f"file {rel} does not exist", r.exits[-1].loc if r.exits else loc, "no file")
    d = rel.split("/")[-2]
    if not d.startswith(s) or d not in HPKOT:
        raise Violation(f"file {rel} is read for the symbol {s}", r.exits[-1].loc if r.exits else loc, "other symbol")
    has = inversion(full)
    if has != bool(inv):
        raise Violation(f"crystal of the file {rel} has {'an' if has else 'no'} inversion centre, with_inversion = {inv}", r.exits[-1].loc if r.exits else loc, "inversion")
    v = r.value
    items = getattr(v, "items", None)
    if items is not None and len(items) != 2:
        raise Violation("cell and atoms are not returned", r.exits[-1].loc if r.exits else loc, "value")
    if items is not None:
        if "cell" not in str(r.it.as_T(r.st, items[0])) or "pos" not in str(r.it.as_T(r.st, items[1])):
            raise Violation("cell and atoms of the file are not returned", r.exits[-1].loc if r.exits else loc, "value")


def no_crystal(ctx, it, s, inv):
    r, loc = run(it, s, inv)
    if rint.returned(r):
        raise Violation(f"unsupported symbol {s!r} is accepted", r.exits[-1].loc if r.exits else loc, "accepted")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for the unsupported symbol {s!r}", x.loc, "class")


def inversion(path):
    """Whether the crystal of the POSCAR file has an inversion centre."""
    with open(path, encoding="utf-8") as f:
        l = f.read().split("\n")
    cell = np.array([[float(x) for x in l[i].split()[:3]] for i in (2, 3, 4)]) * float(l[1].split()[0])
    names, counts = l[5].split(), [int(x) for x in l[6].split()]
    k = 8 if l[7].strip()[:1] not in "sS" else 9
    pos = np.array([[float(x) for x in l[k + i].split()[:3]] for i in range(sum(counts))])
    if l[k - 1].strip()[:1] in "cCkK":
        pos = pos @ np.linalg.inv(cell)
    sp = [n for n, c in zip(names, counts) for _ in range(c)]
    rare = min(set(sp), key=sp.count)
    idx = [i for i, x in enumerate(sp) if x == rare]
    for j in idx:
        t = pos[idx[0]] + pos[j]
        ok = True
        for i in range(len(sp)):
            d = pos - (t - pos[i])
            d = (d - np.round(d)) @ cell
            n = [q for q in range(len(sp)) if np.linalg.norm(d[q]) < 1e-4 and sp[q] == sp[i]]
            if not n:
                ok = False
                break
        if ok:
            return True
    return False
