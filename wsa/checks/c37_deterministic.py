"""Results are functions of the arguments: no order of hash-based sets, randomness, time, environment, uninitialised memory.

Every public call is analysed twice, once with sets of strings iterated in one
order and once in the opposite one (also those at the level of modules): both
value graphs have to be equal. In addition no result, condition or written file
may depend on a source of nondeterminism.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Fun, State, Tup
from . import c48_messages as c48
from . import calls, kobj
from .calls import atoms, cell
from .common import crystal_interp
from .c34_examples import HPKOT
from .files import Disk

LEVEL = "other"
FLOOR = 150
ASSUMPTIONS = ["spglib, scipy and numpy (except numpy.random and numpy.empty) are deterministic"]
SOURCES = ("numpy.random", "random.", "time.", "datetime.", "os.environ", "os.getenv", "os.urandom", "os.getpid", "uuid.", "secrets.", "builtins.id", "builtins.hash",
           "builtins.globals", "sys.argv", "tempfile.", "os.listdir", "os.scandir", "glob.", "platform.", "socket.", "getpass.", "os.getlogin", "threading.", "locale.")
PLAIN = {"get_spglib_types", "get_spglib_data", "validate_atoms", "validate_spglib_data", "get_params", "from_params"}
MANY = ["Cr1", "Br", "Br", "S", "Ni2", "Fe", "O", "Cr1", "Zn", "qq", "S"]
SPECIES = ["Cr", "Br", "Br", "S", "Ni", "Fe", "O", "Cr", "Zn", "X", "S"]


def rows():
    out = [(a, b, c, False) for a, b, c, *_ in calls.table() if a not in ("dump_poscar(array)", "load_poscar")]
    n = len(MANY)

    def at(**v):
        return lambda it, st: ([atoms(it, st, "array", tuple(v), n=n, values=v)], {})
    same = ["?1a", "?1b", "?1c", "X12", "?1d", "?1e", "X13", "?2", "x1 ", "?1f", "Qa1"]
    case = ["Q", "q", "Q1", "q1", "x_", "X_", "Q ", "q ", "QQ", "qQ", "Qq"]
    for keys in (dict(names=MANY), dict(names=same), dict(names=same[::-1]), dict(names=case), dict(species=SPECIES), dict(names=MANY, species=SPECIES), dict(names=SPECIES[::-1])):
        for fn in ("wulfric.get_spglib_types", "wulfric.crystal.get_atoms_species", "wulfric.crystal.get_unique_names"):
            if fn.endswith("types") or "names" in keys:
                out.append((f"{fn.split('.')[-1]} of many {sorted(keys)} {list(keys.values())[0][0]}", fn, at(**keys), False))
        if "species" in keys:
            for m in ("Direct", "Cartesian"):
                out.append((f"dump_poscar of many {sorted(keys)}, {m}", "wulfric.io.dump_poscar",
                            lambda it, st, v=dict(keys), m=m: ([cell(it, st, "array"), atoms(it, st, "array", tuple(v), n=n, values=v)], dict(mode=m, comment="c")), True))
    for s in ("repeated-only",):
        out.append((f"get_unique_names({s}) of many", "wulfric.crystal.get_unique_names",
                    lambda it, st, s=s: ([atoms(it, st, "array", ("names",), n=n, values=dict(names=MANY))], dict(strategy=s)), False))
    for name in MANY + ["cr12_", "12HE", "_x_", "Uuo", "COS", "brcl"]:
        out.append((f"get_atom_species({name})", "wulfric.crystal.get_atom_species", lambda it, st, name=name: ([name], {}), False))
    from ..oracle_k import hpkot_symbols
    for s in HPKOT + ["oC", "hR"]:
        out.append((f"hpkot_get_example({s})", "wulfric.crystal.hpkot_get_example", lambda it, st, s=s: ([s], dict(with_inversion=False)), False))
    for s in ("FCC", "RHL1", "MCLC3", "ORCF3", "BCT2", "HEX"):
        out.append((f"sc_get_example({s})", "wulfric.cell.sc_get_example", lambda it, st, s=s: ([s], {}), False))
    for m in ("plain", "Cartesian", "names"):
        out.append((f"load_poscar, {m}", "wulfric.io.load_poscar", m, True))
    seen = set()
    return [r for r in out if not (r[0] in seen or seen.add(r[0]))]


KP = ["ticks", "points", "flat_points", "copy", "hs_table"]
KG = ["labels", "path_string", "path", "hs_names", "hs_labels", "hs_coordinates", "n"]


def check(ctx):
    for label, fn, build, disk in rows():
        ctx.ob(label, one, ctx, label, fn, build, disk)
    for label, c in dict(c48.cases()).items():
        if "crystal" not in c:
            ctx.ob(f"error of {label}", error_texts, ctx, label, c)
    for p in (None, "GAMMA-X-Y|Z-W", "X-W-Z|W-GAMMA-Y|Y-X"):
        for n in KP:
            ctx.ob(f"Kpoints.{n}() for {p}", kpoints, ctx, n, p, True)
        for n in KG:
            ctx.ob(f"Kpoints.{n} for {p}", kpoints, ctx, n, p, False)


def error_texts(ctx, label, c):
    """The text of the error of a refused call under both orders of sets."""
    out = []
    for rev in (False, True):
        it = ctx.interp(f"errors {c['key']} {rev}", set_reverse=rev)
        it.assume_available = True
        if c["key"] == "niggli":
            it.while_hook = lambda i, s, st: setattr(st, "pc", 0) or True
        st = State()
        r = it.run(c["fn"], [c48.build(it, st, a) for a in c["args"]], {k: c48.build(it, st, v) for k, v in c["kw"].items()}, st=st)
        x = rint.raised(r, c["env"])
        if x is None:
            raise Undecided("not refused")
        out.append((c48.message(it, x, c["env"]), x.loc, rint.cls_name(x.cls)))
    ctx.count("calls_analysed", 2)
    (m1, loc, c1), (m2, _, c2) = out
    if (m1, c1) != (m2, c2):
        d = next((i for i, (a, b) in enumerate(zip(m1, m2)) if a != b), 0)
        raise Violation(f"error of {label} depends on the order in which a set of strings is iterated: ...{m1[max(0, d - 10):d + 25]!r} or ...{m2[max(0, d - 10):d + 25]!r}", loc, f"{label} text depends on set order")


def interp(ctx, fn, reverse):
    key = "backwards" if reverse else "forwards"
    if fn.split(".")[-1] in PLAIN or not fn.startswith(("wulfric.crystal", "wulfric.kpoints", "wulfric.Kpoints")):
        return ctx.interp("plain " + key, set_reverse=reverse)
    ctx.interp("crystal " + key, set_reverse=reverse)
    return crystal_interp(ctx, "crystal " + key)


def canon(v):
    """Concrete values; sets have no order."""
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(map(repr, v)))
    return v


def env_of(g, terms, env):
    for t in terms:
        for x in tm.subterms(t):
            if x.op == "sym" and x.args[0] not in env:
                s = x.args[1]
                if isinstance(s, tuple) and s[0] == "arr":
                    env[x.args[0]] = oracle.random_cell(g) if s[1] == (3, 3) else g.uniform(-1, 1, size=s[1])
                elif s in ("num", "float"):
                    env[x.args[0]] = g.uniform(0.2, 2)
                elif s == "int":
                    env[x.args[0]] = int(g.integers(1, 5))
                else:
                    env[x.args[0]] = f"v{len(env)}"
    return env


def tainted(t):
    for x in tm.subterms(t):
        if x.op == "unknown" and x.args and x.args[0] == "uninitialised":
            return "uninitialised memory"
        name = x.args[0] if x.op in ("call", "ext", "np", "attr") and x.args else None
        if isinstance(name, str):
            y = name
        elif x.op == "k" and isinstance(x.args[0], str) and x.args[0].startswith(SOURCES):
            continue
        else:
            continue
        if y.startswith(SOURCES):
            return y
    return None


def cond(f):
    return tm.mk("guard", f) if not isinstance(f, int) else tm.const(bool(f))


def output(it, r, disk):
    """Terms which the caller sees: result, condition of returning, classes of errors, changed arguments, written files."""
    out = [("the result", it.as_T(r.st, r.value) if r.st.pc != 0 else tm.const(None))]
    errs = {}
    for x in r.raises:
        c = rint.cls_name(x.cls)
        errs[c] = tm.OR(errs.get(c, 0), x.pc)
    for a, o in sorted(r.st.heap.items()):
        if o.origin.startswith("input:") and r.st.pc != 0:
            out.append((o.origin.replace("input:", "argument "), it._content_T(r.st, o, o.content, 0)))
    if disk is not None:
        for n, m, f, loc in disk.opened:
            out.append((f"file {n}", it.as_T(r.st, f) if r.st.pc != 0 else tm.const(None)))
    return out, errs


def run(ctx, fn, build, disk, reverse):
    it = interp(ctx, fn, reverse)
    st = State()
    d = None
    if disk:
        d = Disk(it)
        if isinstance(build, str):
            from .c24_poscar_read import lines
            d = Disk(it, {"some-file": lines("1", build == "names", None, "Cartesian" if build == "Cartesian" else "Direct", (2, 1))})
            a, k = ["some-file"], {}
        else:
            a, k = build(it, st)
        with d:
            r = it.run(fn, a, k, st=st)
    else:
        a, k = build(it, st)
        r = it.run(fn, a, k, st=st)
    return it, r, d


def one(ctx, label, fn, build, disk):
    it1, r1, d1 = run(ctx, fn, build, disk, False)
    it2, r2, d2 = run(ctx, fn, build, disk, True)
    o1, e1 = output(it1, r1, d1)
    o2, e2 = output(it2, r2, d2)
    f = it1.public(fn)
    loc = (r1.exits[-1].loc if len(r1.exits) == 1 else None) or fun_loc(f if isinstance(f, Fun) else f)
    decide(ctx, fn.split(".")[-1], loc, it1, o1, e1, it2, o2, e2)
    ctx.count("calls_analysed", 2)


def decide(ctx, name, loc, it1, o1, e1, it2, o2, e2):
    for what, t in o1:
        x = tainted(t)
        if x:
            raise Violation(f"{what} of {name} depends on {x}", loc, f"{name} depends on {x}")
    for c, pc in e1.items():
        x = tainted(cond(pc)) if not isinstance(pc, int) or pc > 1 else None
        if x:
            raise Violation(f"error {c} of {name} depends on {x}", loc, f"{name} error depends on {x}")
    if len(o1) != len(o2):
        raise Undecided("different objects are alive")
    g = oracle.rng(ctx.seed, name)
    open_terms = None
    for (what, t1), (_, t2) in zip(o1, o2):
        if t1 is t2:
            continue
        try:
            for _ in range(3):
                env = env_of(g, (t1, t2), {})
                v1, v2 = canon(tm.evaluate(t1, env, {})), canon(tm.evaluate(t2, env, {}))
                if not rint.same(v1, v2):
                    raise Violation(f"{what} of {name} depends on the order in which a set of strings is iterated", loc, f"{name} depends on set order")
        except tm.Unevaluable as e:
            open_terms = str(e)
    if {c: p for c, p in e1.items() if p} != {c: p for c, p in e2.items() if p}:
        if not (set(e1) == set(e2)):
            raise Violation(f"errors of {name} depend on the order in which a set of strings is iterated", loc, f"{name} error depends on set order")
        open_terms = open_terms or "conditions of errors differ"
    if open_terms:
        raise Undecided(f"terms differ and are not of closed form: {open_terms}")


def kpoints(ctx, name, path, call):
    res = []
    for rev in (False, True):
        it = ctx.interp("plain " + ("backwards" if rev else "forwards"), set_reverse=rev)
        r = kobj.make(it, path=path)
        if r.st.pc == 0:
            raise Undecided("constructor refuses")
        v, raises = (kobj.call if call else kobj.get)(it, r.st, r.value, name)
        errs = {}
        for x in raises:
            errs[rint.cls_name(x.cls)] = tm.OR(errs.get(rint.cls_name(x.cls), 0), x.pc)
        res.append((it, [("the result", it.as_T(r.st, v))], errs))
    (i1, o1, e1), (i2, o2, e2) = res
    decide(ctx, f"Kpoints.{name}", kobj.loc(i1, name), i1, o1, e1, i2, o2, e2)
    ctx.count("calls_analysed", 2)
