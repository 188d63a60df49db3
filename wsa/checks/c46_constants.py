"""Tables of constants: plot names spell the labels, tables of lattices agree with each other, factors of angles.

Module-level values are computed by the analysis of the modules of constants
and compared entry by entry with independently written rules.
"""
import math
import re

from .. import oracle, oracle_k, oracle_points
from .. import terms as tm
from ..core import Undecided, Violation
from ..interp import State
from .common import entry_loc

LEVEL = "proof"
FLOOR = 100
ASSUMPTIONS = ["plot names are read as the LaTeX subset letter or Greek letter, subscript, prime"]
GREEK = {"GAMMA": "Gamma", "DELTA": "Delta", "LAMBDA": "Lambda", "SIGMA": "Sigma"}
LONG = {"cP": "Cubic", "cF": "Face-centered cubic", "cI": "Body-centered cubic", "tP": "Tetragonal", "tI": "Body-centered tetragonal", "oP": "Orthorhombic",
        "oF": "Face-centered orthorhombic", "oI": "Body-centered orthorhombic", "oA": "C-centered orthorhombic", "oC": "C-centered orthorhombic", "hP": "Hexagonal",
        "hR": "Rhombohedral", "mP": "Monoclinic", "mC": "C-centered monoclinic", "aP": "Triclinic"}
TYPES = [f + c for f, c in oracle.LATTICE_TYPES]


def value(it, name):
    t = it.as_T(State(), it.public("wulfric.constants." + name))
    try:
        return tm.evaluate(t, {})
    except tm.Unevaluable as u:
        raise Undecided(f"{name} is not constant: {u}")


def table(it, name):
    v = value(it, name)
    if not isinstance(v, dict):
        raise Undecided(f"{name} is not a dictionary")
    return v


def check(ctx):
    it = ctx.interp("plain")
    labels = sorted({x for t in (oracle_points.HPKOT, oracle_points.SC) for s in t for x in names_of(t[s])})
    for x in labels:
        for q in (x, x + "_P"):
            ctx.ob(f"plot name of {q}", plot_name, ctx, it, q)
    ctx.ob("plot names of other labels", others, ctx, it)
    for lt in TYPES:
        ctx.ob(f"names of the lattice {lt}", lattice, ctx, it, lt)
    ctx.ob("list of Bravais lattices", members, ctx, it, "BRAVAIS_LATTICES", TYPES)
    ctx.ob("list of extended Bravais lattice symbols", members, ctx, it, "HPKOT_EXTENDED_BL_SYMBOLS", list(oracle_points.HPKOT))
    ctx.ob("list of SC variations", members, ctx, it, "SC_BRAVAIS_LATTICE_VARIATIONS", list(oracle_points.SC))
    for conv in ("HPKOT", "SC"):
        for s in oracle_points.HPKOT if conv == "HPKOT" else oracle_points.SC:
            ctx.ob(f"path of {conv} {s}", path, ctx, it, conv, s)
    ctx.ob("conversion of angles", angles, ctx, it)


def names_of(x):
    """Labels of an entry of the published tables."""
    return [q.split(":")[0].strip() for q in x[1].split(";")]


def parse(s):
    """(base, subscript, primed) of a plot name."""
    if not isinstance(s, str):
        return None
    t = s.replace("$", "").replace("{", "").replace("}", "").replace(" ", "")
    m = re.fullmatch(r"(\\[A-Z][a-z]+|[A-Z])(?:_(\d+))?(?:\^\\prime|')?(?:_(\d+))?", t)
    if not m or (m[2] and m[3]):
        return None
    if ("\\" in s or "_" in s or "^" in s) and s.count("$") != 2:
        return None
    return m[1].lstrip("\\"), m[2] or m[3] or "", ("prime" in t or "'" in t)


def spelled(q):
    m = re.fullmatch(r"([A-Z]+?)(\d*)(_P)?", q)
    return (GREEK.get(m[1], m[1]), m[2], bool(m[3])) if m else None


def plot_name(ctx, it, q):
    d = table(it, "HS_PLOT_NAMES")
    loc = entry_loc(it, "wulfric.constants.HS_PLOT_NAMES", q)
    if q not in d:
        raise Violation(f"no plot name for the label {q}", loc, f"missing {q}")
    if parse(d[q]) != spelled(q):
        raise Violation(f"plot name of {q} is {d[q]!r}", loc, f"plot name {q}")
    ctx.count("entries")


def others(ctx, it):
    seen = {}
    for q, s in table(it, "HS_PLOT_NAMES").items():
        loc = entry_loc(it, "wulfric.constants.HS_PLOT_NAMES", q)
        if spelled(q) and parse(s) != spelled(q):
            raise Violation(f"plot name of {q} is {s!r}", loc, f"plot name {q}")
        if s in seen:
            raise Violation(f"labels {q} and {seen[s]} have the same plot name {s!r}", loc, f"same plot name {q}")
        seen[s] = q
        ctx.count("entries")


def lattice(ctx, it, lt):
    for name, want in (("SC_BRAVAIS_LATTICE_SHORT_NAMES", oracle_k.SC_SHORT[lt]), ("SC_BRAVAIS_LATTICE_LONG_NAMES", LONG[lt])):
        d = table(it, name)
        loc = entry_loc(it, "wulfric.constants." + name, lt)
        if lt not in d:
            raise Violation(f"{name} has no entry for {lt}", loc, f"{name} missing {lt}")
        got = d[lt].lower() if "LONG" in name else d[lt]
        if got.replace("centred", "centered") != (want.lower() if "LONG" in name else want):
            raise Violation(f"{name}[{lt!r}] is {d[lt]!r}, {want!r} expected", loc, f"{name} {lt}")
        ctx.count("entries")
    extra = set(table(it, "SC_BRAVAIS_LATTICE_SHORT_NAMES")) - set(TYPES)
    if extra:
        raise Violation(f"unknown lattice type {sorted(extra)[0]}", entry_loc(it, "wulfric.constants.SC_BRAVAIS_LATTICE_SHORT_NAMES", sorted(extra)[0]), "unknown type")


def members(ctx, it, name, want):
    v = value(it, name)
    loc = entry_loc(it, "wulfric.constants." + name, None)
    got = [str(x) for x in v]
    for x in want:
        if x not in got:
            raise Violation(f"{name} lacks {x}", loc, f"{name} lacks {x}")
    for x in got:
        if x not in want or got.count(x) > 1:
            raise Violation(f"{name} contains {x}, which is repeated or unknown", loc, f"{name} contains {x}")
    ctx.count("entries", len(got))


def path(ctx, it, conv, s):
    d = table(it, conv + "_DEFAULT_K_PATHS")
    loc = entry_loc(it, f"wulfric.constants.{conv}_DEFAULT_K_PATHS", s)
    if s not in d:
        raise Violation(f"no path for {s}", loc, f"path missing {s}")
    known = set(names_of((oracle_points.HPKOT if conv == "HPKOT" else oracle_points.SC)[s]))
    for sub in d[s].split("|"):
        q = sub.split("-")
        if len(q) < 2:
            raise Violation(f"path of {s} contains the single point {sub!r}", loc, f"path single {s}")
        for a, b in zip(q, q[1:]):
            if a == b:
                raise Violation(f"path of {s} goes from {a} to {a}", loc, f"path repeats {s}")
        for a in q:
            if a not in known:
                raise Violation(f"path of {s} goes through {a!r}, which is not a point of {s}", loc, f"path label {s}")
    ctx.count("entries")


def angles(ctx, it):
    for name, want in (("TORADIANS", math.pi / 180), ("TODEGREES", 180 / math.pi)):
        v = value(it, name)
        if abs(float(v) - want) > 1e-14 * want:
            raise Violation(f"{name} is {v!r}", entry_loc(it, "wulfric.constants." + name, None), name)
        ctx.count("entries")
