"""Names built of an element symbol are attributed to this element; tables of elements are complete.

Closed world: the 118 symbols (written down independently) in several
decorations are propagated through the analysed function; tables of elements
are read off and compared entry by entry.
"""
import re

import numpy as np

from .. import rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import State
from .calls import atoms
from .common import entry_loc

LEVEL = "other"
FLOOR = 118
FN = "wulfric.crystal.get_atom_species"
EL = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba "
      "La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt "
      "Ds Rg Cn Nh Fl Mc Lv Ts Og").split()
MASS = dict(zip(EL, [1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.18, 22.99, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.948, 39.098, 40.078,
                     44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.63, 74.922, 78.971, 79.904, 83.798, 85.468, 87.62, 88.906, 91.224,
                     92.906, 95.95, 97, 101.07, 102.91, 106.42, 107.87, 112.41, 114.82, 118.71, 121.76, 127.6, 126.9, 131.29, 132.91, 137.33, 138.91, 140.12, 140.91, 144.24, 145,
                     150.36, 151.96, 157.25, 158.93, 162.5, 164.93, 167.26, 168.93, 173.05, 174.97, 178.49, 180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59, 204.38,
                     207.2, 208.98, 209, 210, 222, 223, 226, 227, 232.04, 231.04, 238.03, 237, 244, 243, 247, 247, 251, 252, 257, 258, 259, 262, 267, 268, 269, 270, 269, 277, 281,
                     282, 285, 286, 290, 290, 293, 294, 294]))


def check(ctx):
    it = ctx.interp("plain")
    for e in EL:
        ctx.ob(f"element {e}", element, ctx, it, e)
    ctx.ob("names of two-letter symbols in other positions", mixed, ctx, it)
    ctx.ob("no element", noelement, ctx, it)
    ctx.ob("list of atoms", listed, ctx, it)
    ctx.ob("table ATOM_SPECIES", species, ctx, it)
    for t in ("ATOM_COLORS", "ATOMIC_MASS"):
        ctx.ob("table " + t, table, ctx, it, t)


def run(it, name, **kw):
    st = State()
    r = it.run(FN, [name], kw, st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(FN))
    return r, loc


def deduced(it, name, want, **kw):
    r, loc = run(it, name, **kw)
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the name {name!r}", r.raises[-1].loc, f"raises {want}")
    v = rint.val(r, r.value, {})
    if v != want:
        raise Violation(f"species of {name!r} is {v!r}, {want!r} expected", loc, f"species {want}")
    if any(e.kind == "warn" for e in r.events):
        raise Violation(f"warning for the name {name!r}", loc, f"warns {want}")


def element(ctx, it, e):
    for name in (e, e.lower(), e.upper(), e + "1", e + "23", "12" + e, "_" + e, e + "_3", e.upper() + "7"):
        for kw in ({}, dict(raise_on_fail=True)):
            deduced(it, name, e, **kw)
            ctx.count("names")


def mixed(ctx, it):
    # a symbol of two letters wins over the symbols of its letters wherever it stands
    for name, want in (("Co1", "Co"), ("CO", "Co"), ("Sc", "Sc"), ("Cs2", "Cs"), ("No", "No"), ("Os", "Os"), ("Pb3", "Pb"), ("Po", "Po"), ("Si1", "Si"), ("Hf_2", "Hf"), ("Yb", "Yb"),
                       ("Bi", "Bi"), ("Nb", "Nb"), ("Np", "Np"), ("In2", "In"), ("Sn", "Sn"), ("Hs", "Hs"), ("Cn", "Cn"), ("Fx", "F"), ("Ox", "O"), ("_3341Cr", "Cr")):
        deduced(it, name, want)


def noelement(ctx, it):
    for name in ("1", "@%", "", "123a", "_", "x"):
        r, loc = run(it, name)
        if r.st.pc == 0 or rint.val(r, r.value, {}) != "X":
            raise Violation(f"name {name!r} without an element is not attributed to 'X'", loc, "X")
        if not any(e.kind == "warn" or e.kind == "call" and "warn" in str(e.data) for e in r.events):
            raise Violation(f"no warning for the name {name!r} without an element", loc, "no warning")
        r, loc = run(it, name, raise_on_fail=True)
        if rint.returned(r):
            raise Violation(f"raise_on_fail=True raises nothing for the name {name!r}", loc, "raise_on_fail")
        if any(rint.cls_name(x.cls) != "FailedToDeduceAtomSpecies" for x in rint.sure(r)):
            raise Violation(f"{rint.cls_name(r.raises[-1].cls)} is raised for the name {name!r}", r.raises[-1].loc, "raise_on_fail class")


def listed(ctx, it):
    st = State()
    nm = ["Cr1", "br", "3", "O2", "Cr1"]
    r = it.run("wulfric.crystal.get_atoms_species", [atoms(it, st, "array", ("names",), n=5, values=dict(names=nm))], {}, st=st)
    loc = r.exits[-1].loc if r.exits else None
    v = rint.val(r, r.value, {})
    if list(v) != ["Cr", "Br", "X", "O", "Cr"]:
        raise Violation(f"species of {nm} are {v}", loc, "list")
    st = State()
    r = it.run("wulfric.crystal.get_atoms_species", [atoms(it, st, "array", ("names",), n=5, values=dict(names=nm))], dict(raise_on_fail=True), st=st)
    if rint.returned(r):
        raise Violation("raise_on_fail=True raises nothing for a list with a name without an element", loc, "list raise_on_fail")


def species(ctx, it):
    v = it.public("wulfric.constants.ATOM_SPECIES")
    st = State()
    t = it.as_T(st, v)
    items = it.known_items(st, v)
    if items is None:
        raise Undecided("table is not a constant sequence")
    if sorted(items) != sorted(EL):
        d = sorted(set(items) ^ set(EL)) or [x for x in items if list(items).count(x) > 1]
        raise Violation(f"ATOM_SPECIES differs from the list of elements: {d}", entry_loc(it, "ATOM_SPECIES", None), "species table")


def table(ctx, it, name):
    st = State()
    t = it.as_T(st, it.public("wulfric.constants." + name))
    if t.op != "dict":
        raise Undecided("table is not a constant dictionary")
    d = {k.args[1]: v for k, v in t.args if k.op == "k"}
    for e in EL:
        if e not in d:
            raise Violation(f"{name} has no entry for {e}", entry_loc(it, name, e), f"{name} missing {e}")
        if not tm.is_k(d[e]):
            raise Undecided(f"{name}[{e}] is not constant")
        v = d[e].args[1]
        ctx.count("entries")
        if name == "ATOM_COLORS":
            if not (isinstance(v, str) and re.fullmatch(r"#[0-9A-Fa-f]{6}", v)):
                raise Violation(f"color of {e} is {v!r}", entry_loc(it, name, e), f"color {e}")
        elif not abs(v - MASS[e]) <= 0.02 * MASS[e]:
            raise Violation(f"mass of {e} is {v}, {MASS[e]} expected", entry_loc(it, name, e), f"mass {e}")
