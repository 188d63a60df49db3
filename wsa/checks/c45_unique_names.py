"""get_unique_names returns one unique name per atom: constant propagation of lists of names through the function.

The lists of names are constants, so the returned names are constants of the
analysed function; they are compared with the documented renaming.
"""
import itertools
from collections import Counter

from .. import oracle
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Ref, State
from .calls import atoms

LEVEL = "other"
FLOOR = 30
FN = "wulfric.crystal.get_unique_names"
ASSUMPTIONS = ["names are strings"]


def lists(g, thorough):
    """(group, list of names): all short lists of similar names, long lists with collisions of digits, random ones."""
    base = ("A", "A1", "A11", "B")
    for n in (0, 1, 2, 3, 4):
        for x in itertools.product(base, repeat=n):
            yield f"{n} atoms", list(x)
    yield "doctest", ["Cr1", "Cr2", "Br", "Br", "S", "S"]
    for n in (11, 12, 23):
        yield "many atoms", ["A1"] + ["A"] * (n - 1)
        yield "many atoms", ["A"] * n
        yield "many atoms", ["A"] * (n - 2) + ["A1", "A1"]
        yield "many atoms", ["A1", "A1"] + ["A"] * (n - 2)
        yield "many atoms", ["A_", "A_1"] * (n // 2)
    yield "hundred atoms", ["A1", "A11"] + ["A"] * 110
    pool = ("Cr", "Cr1", "Cr2", "Cr11", "Br", "Br1", "Br12", "1", "2", "", "S_", "S_1", "cr", "Cr 1")
    for _ in range(600 if thorough else 120):
        yield "random names", [str(x) for x in g.choice(pool, size=g.integers(2, 16))]
    yield "no atoms", []


def check(ctx):
    groups = {}
    for grp, x in lists(oracle.rng(ctx.seed, "names"), ctx.thorough):
        groups.setdefault(grp, []).append(x)
    for grp, xs in groups.items():
        for s in ("all", "repeated-only", None):
            for i in range(0, len(xs), 40):
                ctx.ob(f"{grp} ({i}), strategy {s}", names, ctx, xs[i:i + 40], s)


def returned(it, x, s):
    st = State()
    at = it.new_dict(st, [("names", it.new_list(st, list(x), "input:names"))], "input:atoms")
    r = it.run(FN, [at], {} if s is None else dict(strategy=s), st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(FN))
    if r.st.pc == 0:
        raise Violation(f"names {x!r} are refused (strategy {s!r})", r.raises[-1].loc if r.raises else loc, "refused")
    v = r.value
    if not isinstance(v, Ref) or it.obj(r.st, v).kind != "list":
        raise Undecided("not a list")
    out = []
    for y in it.known_items(r.st, v):
        t = it.as_T(r.st, y)
        try:
            out.append(tm.evaluate(t, {}))
        except tm.Unevaluable as u:
            raise Undecided(f"names are not constants: {u}")
    return out, loc


def names(ctx, xs, s):
    it = ctx.interp("names")
    strategy = s or "all"
    for x in xs:
        got, loc = returned(it, x, s)
        ctx.count("lists_of_names")
        d = f"get_unique_names gives {got!r} for {x!r} (strategy {strategy!r})"
        if len(got) != len(x):
            raise Violation(d + ": not one name per atom", loc, f"number of names {strategy}")
        if len(set(got)) != len(got):
            raise Violation(d + ": names are not unique", loc, f"not unique {strategy}")
        if len(set(x)) == len(x):
            if got != x:
                raise Violation(d + ": the names were unique", loc, f"unique names changed {strategy}")
            continue
        if strategy == "all":
            plain = [f"{n}{i + 1}" for i, n in enumerate(x)]
            if len(set(plain)) == len(plain) and got != plain:
                raise Violation(d + f", expected {plain!r}", loc, "index of atoms")
            for n, m, i in zip(x, got, range(1, len(x) + 1)):
                if not m.startswith(n) or not m[len(n):].isdigit() or int(m[len(n):]) != i:
                    raise Violation(d + f": atom {i} is named {m!r}", loc, "index of an atom")
            continue
        total = Counter(x)
        want = [n if total[n] == 1 else n + str(x[:i + 1].count(n)) for i, n in enumerate(x)]
        if len(set(want)) == len(want) and got != want:
            raise Violation(d + f", expected {want!r}", loc, "index of repeated names")
        last = {}
        for n, m in zip(x, got):
            if total[n] == 1:
                if m != n:
                    raise Violation(d + f": {n!r} was not repeated", loc, "single name changed")
                continue
            if not m.startswith(n) or not m[len(n):].isdigit() or int(m[len(n):]) <= last.get(n, 0):
                raise Violation(d + f": {n!r} is renamed to {m!r}", loc, "repeated name")
            last[n] = int(m[len(n):])
