"""spglib types: equal types exactly for equal species, independent of order; priority of the keys.

The key patterns and all partitions of up to four atoms into species are
enumerated; the list of types is read off the analysed function for each.
"""
import itertools

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import State
from .calls import atoms

LEVEL = "other"
FLOOR = 30
FN = "wulfric.get_spglib_types"
POOL = ["Fe", "O", "Cr", "H"]
# names and the species they stand for (a name which is no species stands for itself)
NAMES = [("Fe1", "Fe"), ("fe2", "Fe"), ("O", "O"), ("O12", "O"), ("Cr3", "Cr"), ("Cr", "Cr"), ("1", None), ("?", None), ("?1", None), ("?2", None), (" 1", None)]
MORE = [("Q1", None), ("q1", None), ("Q10", None), ("Q1a", None), ("Q", None), ("xQ1", None), ("Q 1", None), ("FE", "Fe"), ("fE1", "Fe"), ("1Fe", "Fe"), ("Fe_1", "Fe"), ("o1", "O")]


def check(ctx):
    it = ctx.interp("plain")
    for n in (1, 2, 3, 4):
        for first in POOL:
            ctx.ob(f"species, {n} atoms, first {first}", species, ctx, it, n, first)
    for n in (1, 2, 3):
        for first in NAMES:
            ctx.ob(f"names, {n} atoms, first {first[0]}", names, ctx, it, n, first)
    for first in MORE:
        ctx.ob(f"names, 2 atoms, first {first[0]}", names, ctx, it, 2, first, NAMES + MORE)
    ctx.ob("many atoms and species", many, ctx, it)
    ctx.ob("priority of keys", priority, ctx, it)
    ctx.ob("no key", nokey, ctx, it)


def types(it, pairs):
    """Types for the atoms given as {key: list}."""
    st = State()
    n = len(next(iter(pairs.values())))
    a = atoms(it, st, "array", tuple(k for k in pairs if k != "spglib_types"), n=n, types=pairs.get("spglib_types"), values={k: list(v) for k, v in pairs.items()})
    r = it.run(FN, [a], {}, st=st)
    if r.st.pc == 0:
        x = r.raises[-1]
        raise Violation(f"{rint.cls_name(x.cls)} for {pairs}", x.loc, "raises")
    v = rint.val(r, r.value, {})
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(FN))
    v = [x.item() if hasattr(x, "item") else x for x in v]
    if not all(isinstance(x, int) and not isinstance(x, bool) and x >= 1 for x in v) or len(v) != n:
        raise Violation(f"types are {v} for {pairs}: positive integers, one per atom, expected", loc, "kind of types")
    return v, loc


def consistent(v, ids, what, loc):
    for i, j in itertools.combinations(range(len(v)), 2):
        if (v[i] == v[j]) != (ids[i] == ids[j]):
            raise Violation(f"{what} get the types {v}", loc, "partition")


def species(ctx, it, n, first):
    seen = {}
    for rest in itertools.product(POOL[:3], repeat=n - 1):
        s = [first, *rest]
        v, loc = types(it, dict(species=s))
        ctx.count("patterns")
        consistent(v, s, f"species {s}", loc)
        # the type of a species depends on the set of species only, not on order and multiplicity
        v2, _ = types(it, dict(species=s[::-1]))
        if v2[::-1] != v:
            raise Violation(f"species {s} get the types {v}, in the reversed order {v2}: types depend on the order of atoms", loc, "order")
        v3, _ = types(it, dict(species=s + s[:1]))
        if v3 != v + v[:1]:
            raise Violation(f"species {s} get the types {v}, with one more {s[0]} {v3}", loc, "multiplicity")


def names(ctx, it, n, first, pool=NAMES):
    for rest in itertools.product(pool, repeat=n - 1):
        s = [first, *rest]
        v, loc = types(it, dict(names=[x for x, _ in s]))
        ctx.count("patterns")
        consistent(v, [y or x for x, y in s], f"names {[x for x, _ in s]}", loc)


def many(ctx, it):
    from .c17_species import EL as SYMBOLS
    g = oracle.rng(ctx.seed, "many species")
    for n in (15, 40, 130):
        s = [SYMBOLS[int(i)] for i in g.integers(0, len(SYMBOLS), size=n)]
        v, loc = types(it, dict(species=s))
        consistent(v, s, f"species {s}", loc)
        nm = [f"Q{int(i)}" for i in g.integers(0, 200, size=n // 3)]
        v, loc = types(it, dict(names=nm))
        consistent(v, nm, f"names {nm}", loc)
    s = list(SYMBOLS) + ["X"]
    v, loc = types(it, dict(species=s))
    consistent(v, s, "all the species", loc)


def priority(ctx, it):
    sp, nm = ["Fe", "O", "Fe"], ["Cr", "Cr", "Br"]
    v, loc = types(it, dict(names=nm, species=sp))
    consistent(v, sp, f"species {sp} with names {nm}", loc)
    for sp, nm in ((["X", "Fe", "X"], ["Cr", "Cr", "Br"]), (["X", "X", "X"], ["Cr", "Fe", "Cr"]), (["Fe", "X", "X", "O"], ["O1", "O2", "Fe", "X"]), (["X", "Cr"], ["Cr", "X"])):
        v, loc = types(it, dict(names=nm, species=sp))
        consistent(v, sp, f"species {sp} with names {nm}", loc)
    sp, nm = ["Fe", "O", "Fe"], ["Cr", "Cr", "Br"]
    v, loc = types(it, dict(names=nm, species=sp, spglib_types=[7, 2, 7]))
    if v != [7, 2, 7]:
        raise Violation(f"given spglib_types [7, 2, 7] become {v}", loc, "given types")
    for t in ([1, 118, 119, 230, 231, 1000, 10**6], [3, 3, 3], [5], [9, 8, 7, 6], list(range(1, 41)), [2**31, 2**31 + 1]):
        v, loc = types(it, dict(mykey=t, spglib_types=t))
        if v != t:
            raise Violation(f"given spglib_types {t} become {v}", loc, "given types")
    v, loc = types(it, dict(mykey=sp, spglib_types=[1, 1, 1]))
    if v != [1, 1, 1]:
        raise Violation(f"given spglib_types [1, 1, 1] become {v}", loc, "given types")


def nokey(ctx, it):
    st = State()
    r = it.run(FN, [atoms(it, st, "array", ("mykey",))], {}, st=st)
    if rint.returned(r):
        raise Violation("atoms without spglib_types, species and names are accepted", r.exits[-1].loc if r.exits else fun_loc(it.public(FN)), "no key accepted")
    if any(rint.cls_name(x.cls) != "ValueError" for x in rint.sure(r)):
        raise Violation("the error is not ValueError", r.raises[-1].loc, "no key class")
